package yarql_test

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/mjarkk/yarql"
)

// A fixed schema, a generator of requests over it, and an independent interpreter that says what the answer must be.

type NIface interface{ ResolveLabel() string }

type NColor string

type NIn struct {
	X int    `gq:"x"`
	Y string `gq:"y"`
	Z []NIn  `gq:"z"`
	N *NIn   `gq:"n"`
	B bool   `gq:"b"`
}

type NEcho struct {
	I int      `gq:"i"`
	S string   `gq:"s"`
	L []int    `gq:"l"`
	O NIn      `gq:"o"`
	B bool     `gq:"b"`
	F float64  `gq:"f"`
	C NColor   `gq:"c"`
	P *int     `gq:"p"`
	Q *NIn     `gq:"q"`
	G [][]int  `gq:"g"`
	U uint16   `gq:"u"`
	T []string `gq:"t"`
}

type NNode struct {
	Num   int                        `gq:"num"`
	Text  string                     `gq:"text"`
	Flag  bool                       `gq:"flag"`
	Opt   *string                    `gq:"opt"`
	Nums  []int                      `gq:"nums"`
	Grid  [][]string                 `gq:"grid"`
	Kids  []NNode                    `gq:"kids"`
	Next  *NNode                     `gq:"next"`
	Any   NIface                     `gq:"any"`
	Anys  []NIface                   `gq:"anys"`
	Color NColor                     `gq:"color"`
	Fn    func() (string, error)     `gq:"fn"`
	Fns   func() ([]NNode, error)    `gq:"fns"`
}

type NLeaf struct {
	Size int    `gq:"size"`
	Next *NNode `gq:"next"`
}

var nCalls []string
var nNode2 *NNode // what the sub resolver returns

func nLog(what string) { nCalls = append(nCalls, what) }

func (n NNode) ResolveLabel() string { nLog("label"); return "n" + strconv.Itoa(n.Num) }
func (n NLeaf) ResolveLabel() string { nLog("leaf"); return "l" + strconv.Itoa(n.Size) }
func (n NNode) ResolveEcho(args NEcho) string {
	b, _ := json.Marshal(args)
	nLog("echo " + string(b))
	return string(b)
}
func (n NNode) ResolvePlus(args struct {
	A int `gq:"a"`
}, ctx *yarql.Ctx, more struct {
	B int `gq:"b"`
}) int {
	nLog(fmt.Sprint("plus ", args.A, more.B))
	return args.A*1000 + more.B
}
func (n NNode) ResolveFail(args struct {
	Msg string `gq:"msg"`
}) (string, error) {
	nLog("fail " + args.Msg)
	return "failed", errors.New(args.Msg)
}
func (n NNode) ResolveSub(ctx *yarql.Ctx, args struct {
	Msg *string `gq:"msg"`
	Nil bool    `gq:"nil"`
}) (*NNode, error) {
	nLog("sub " + string(ctx.GetPath()))
	var err error
	if args.Msg != nil {
		err = errors.New(*args.Msg)
	}
	if args.Nil {
		return nil, err
	}
	return nNode2, err
}
func (n NNode) ResolveMany(args struct {
	N int `gq:"n"`
}) ([]NNode, error) {
	nLog("many")
	out := []NNode{}
	for i := 0; i < args.N; i++ {
		out = append(out, *nNode2)
	}
	return out, nil
}
func (n NNode) ResolveWhere(ctx *yarql.Ctx) string {
	nLog("where")
	return string(ctx.GetPath())
}

type NRoot struct {
	R *NNode `gq:"r"`
}
type NMut struct {
	M *NNode `gq:"m"`
	R *NLeaf `gq:"r"`
}

var _ = yarql.Implements((*NIface)(nil), NNode{})
var _ = yarql.Implements((*NIface)(nil), NLeaf{})

var nColors = map[string]NColor{"RED": "r", "GREEN": "g", "GREENISH": "gi", "BLUE": ""}

type nSchema struct {
	s    *yarql.Schema
	root *NNode
	mut  *NNode
	leaf *NLeaf
}

func newNSchema(h *vh) *nSchema {
	m := &nSchema{root: &NNode{}, mut: &NNode{}, leaf: &NLeaf{}}
	m.s = mustSchema(h, "model", NRoot{R: m.root}, NMut{M: m.mut, R: m.leaf}, func(s *yarql.Schema) {
		if _, err := s.RegisterEnum(nColors); err != nil {
			h.fail("enum not accepted", "model", err, nil)
		}
		all := []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}
		err := s.RegisterDirective(yarql.Directive{Name: "drop", Where: all, Method: func(args struct {
			When bool `gq:"when"`
			N    int  `gq:"n"`
		}) yarql.DirectiveModifier {
			nLog("drop")
			return yarql.DirectiveModifier{Skip: args.When || args.N > 5}
		}})
		if err == nil {
			err = s.RegisterDirective(yarql.Directive{Name: "dropp", Where: all, Method: func() yarql.DirectiveModifier {
				nLog("dropp")
				return yarql.DirectiveModifier{}
			}})
		}
		if err != nil {
			h.fail("directive not accepted", "model", err, nil)
		}
	})
	return m
}

// fill gives the schema new data
func (m *nSchema) fill(h *vh, d int) {
	*m.root = h.node(d)
	*m.mut = h.node(d)
	*m.leaf = NLeaf{Size: h.rng.Intn(50)}
	x := h.node(d)
	nNode2 = &x
}

func (h *vh) word() string { return h.pick("", "a", "bc", "x y", `q\"q`[2:4], "b\\c", "Zed", "0") }

func (h *vh) node(d int) NNode {
	n := NNode{Num: h.rng.Intn(200) - 100, Text: h.word(), Flag: h.chance(50)}
	if h.chance(60) {
		w := h.word()
		n.Opt = &w
	}
	if h.chance(80) {
		n.Nums = []int{}
		for i := h.rng.Intn(4); i > 0; i-- {
			n.Nums = append(n.Nums, h.rng.Intn(100))
		}
		n.Grid = [][]string{}
		for i := h.rng.Intn(3); i > 0; i-- {
			var row []string
			for j := h.rng.Intn(3); j > 0; j-- {
				row = append(row, h.word())
			}
			n.Grid = append(n.Grid, row)
		}
	}
	n.Color = NColor(h.pick("r", "g", "gi", "", "zz"))
	if h.chance(70) {
		w, e := h.word(), h.nErr()
		n.Fn = func() (string, error) { nLog("fn"); return w, e }
	}
	if d > 0 {
		for i := h.rng.Intn(4); i > 0; i-- {
			n.Kids = append(n.Kids, h.node(d-1))
		}
		if h.chance(70) {
			var ks []NNode
			e := h.nErr()
			for i := h.rng.Intn(3); i > 0; i-- {
				ks = append(ks, h.node(d-1))
			}
			n.Fns = func() ([]NNode, error) { nLog("fns"); return ks, e }
		}
		if h.chance(60) {
			k := h.node(d - 1)
			n.Next = &k
		}
		n.Any = h.iface(d - 1)
		for i := h.rng.Intn(3); i > 0; i-- {
			n.Anys = append(n.Anys, h.iface(d-1))
		}
	}
	return n
}

func (h *vh) nErr() error {
	if h.chance(30) {
		return errors.New(h.pick("e1", "bad thing", "no", "with space"))
	}
	return nil
}

func (h *vh) iface(d int) NIface {
	switch h.rng.Intn(5) {
	case 0:
		return nil
	case 1, 2:
		return h.node(d)
	}
	l := NLeaf{Size: h.rng.Intn(50)}
	if h.chance(50) {
		k := h.node(0)
		l.Next = &k
	}
	return l
}

// ---- requests

type nProfile struct {
	dirs, args, frags, errs, aliases, iface int // percentages
	vars                                    int
	depth, width                            int
	ops                                     int // number of operations
}

type nDir struct {
	text string
	skip bool
	call string
}
type nSel struct {
	kind  byte // 'f' field, 's' spread, 'i' inline fragment
	key   string
	name  string
	args  interface{} // what the resolver must get
	text  string      // the arguments as written
	dirs  []nDir
	sub   []*nSel
	frag  *nFrag
	on    string
	named bool // has an alias
}
type nFrag struct {
	name, on string
	sub      []*nSel
}
type nOp struct {
	kind, name string
	sub        []*nSel
	varDefs    []string
	vars       []string
	anon       bool
}
type nReq struct {
	h     *vh
	p     nProfile
	keys  map[string]bool
	nr    int
	frags []*nFrag
	ops   []*nOp
	op    *nOp // the one executed
	cur   *nOp
	inFrag bool
	fragVars []nFragVar
}
type nFragVar struct{ def, val string }

func (r *nReq) key(name string) (string, bool) {
	if r.keys[name] || r.h.chance(r.p.aliases) {
		for {
			r.nr++
			k := r.h.pick("a", "b", "num", "x_", "e") + strconv.Itoa(r.nr)
			if !r.keys[k] {
				r.keys[k] = true
				return k, true
			}
		}
	}
	r.keys[name] = true
	return name, false
}

// value writes a literal, or a variable that has the value (given or as its default)
func (r *nReq) value(typ, lit, js string) string {
	if r.cur == nil || !r.h.chance(r.p.vars) {
		return lit
	}
	r.nr++
	name := r.h.pick("v", "va", "var_", "x") + strconv.Itoa(r.nr)
	def := "$" + name + r.h.pick(":", ": ", " : ") + typ
	switch r.h.rng.Intn(3) {
	case 0: // the default is used
		def += r.h.pick("=", " = ") + lit
	case 1:
		def += r.h.pick("", "!")
		r.cur.vars = append(r.cur.vars, fmt.Sprintf("%q:%s", name, js))
	case 2: // the default is not used
		def += " = " + r.other(typ)
		r.cur.vars = append(r.cur.vars, fmt.Sprintf("%q:%s", name, js))
	}
	r.cur.varDefs = append(r.cur.varDefs, def)
	return "$" + name
}

func (r *nReq) other(typ string) string {
	switch typ {
	case "Int":
		return strconv.Itoa(r.h.rng.Intn(9))
	case "Float":
		return "9.5"
	case "Boolean":
		return r.h.pick("true", "false")
	case "String":
		return `"other"`
	case "NColor":
		return "RED"
	case "NIn":
		return `{x: 77}`
	}
	return "[]"
}

func (r *nReq) intv() (string, int) {
	v := r.h.rng.Intn(2000) - 1000
	s := strconv.Itoa(v)
	return r.value("Int", s, s), v
}
func (r *nReq) boolv() (string, bool) {
	v := r.h.chance(50)
	s := strconv.FormatBool(v)
	return r.value("Boolean", s, s), v
}
func (r *nReq) strv() (string, string) {
	v := r.h.pick("", "a", "b c", "d\ne", `q"q`, `\`, "é", "{", "x\ty", "😀")
	j, _ := json.Marshal(v)
	return r.value("String", string(j), string(j)), v
}
func (r *nReq) intsv() (string, []int) {
	out, lit := []int{}, []string{}
	js, _ := json.Marshal(out)
	for i := r.h.rng.Intn(4); i > 0; i-- {
		l, v := r.intv()
		out, lit = append(out, v), append(lit, l)
	}
	text := "[" + strings.Join(lit, r.h.pick(" ", ",", ", ")) + "]"
	if strings.Contains(text, "$") {
		return text, out
	}
	js, _ = json.Marshal(out)
	return r.value("[Int]", text, string(js)), out
}
func (r *nReq) inv(d int) (string, NIn) {
	v := NIn{}
	var lit []string
	for _, f := range r.perm("x", "y", "z", "n", "b") {
		if r.h.chance(50) {
			continue
		}
		var l string
		switch f {
		case "x":
			l, v.X = r.intv()
		case "y":
			l, v.Y = r.strv()
		case "b":
			l, v.B = r.boolv()
		case "n":
			if d == 0 || r.h.chance(30) {
				l = "null"
			} else {
				var o NIn
				l, o = r.inv(d - 1)
				v.N = &o
			}
		case "z":
			if d == 0 {
				continue
			}
			v.Z = []NIn{}
			var ls []string
			for i := r.h.rng.Intn(3); i > 0; i-- {
				t, o := r.inv(d - 1)
				ls, v.Z = append(ls, t), append(v.Z, o)
			}
			l = "[" + strings.Join(ls, ",") + "]"
		}
		lit = append(lit, f+r.h.pick(":", ": ")+l)
	}
	text := "{" + strings.Join(lit, r.h.pick(" ", ",", ", ", "\n")) + "}"
	if strings.Contains(text, "$") {
		return text, v
	}
	js := map[string]interface{}{}
	nInJSON(v, js)
	b, _ := json.Marshal(js)
	return r.value("NIn", text, string(b)), v
}

func nInJSON(v NIn, js map[string]interface{}) {
	if v.X != 0 {
		js["x"] = v.X
	}
	if v.Y != "" {
		js["y"] = v.Y
	}
	if v.B {
		js["b"] = true
	}
	if v.N != nil {
		m := map[string]interface{}{}
		nInJSON(*v.N, m)
		js["n"] = m
	}
	if v.Z != nil {
		l := []interface{}{}
		for _, o := range v.Z {
			m := map[string]interface{}{}
			nInJSON(o, m)
			l = append(l, m)
		}
		js["z"] = l
	}
}

func (r *nReq) perm(xs ...string) []string {
	out := append([]string{}, xs...)
	r.h.rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func (r *nReq) echo() (string, NEcho) {
	v := NEcho{}
	var lit []string
	for _, f := range r.perm("i", "s", "l", "o", "b", "f", "c", "p", "q", "g", "u", "t") {
		if !r.h.chance(r.p.args) {
			continue
		}
		var l string
		switch f {
		case "i":
			l, v.I = r.intv()
		case "u":
			n := r.h.rng.Intn(65536)
			v.U = uint16(n)
			l = r.value("Int", strconv.Itoa(n), strconv.Itoa(n))
		case "s":
			l, v.S = r.strv()
		case "l":
			l, v.L = r.intsv()
		case "b":
			l, v.B = r.boolv()
		case "f":
			v.F = float64(r.h.rng.Intn(4000)-2000) / 8
			t := strconv.FormatFloat(v.F, 'f', 3, 64)
			l = r.value("Float", t, t)
		case "c":
			k := r.h.pick("RED", "GREEN", "GREENISH", "BLUE")
			v.C = nColors[k]
			l = r.value("NColor", k, `"`+k+`"`)
		case "p":
			if r.h.chance(30) {
				l = "null"
			} else {
				var n int
				l, n = r.intv()
				v.P = &n
			}
		case "o":
			l, v.O = r.inv(2)
		case "q":
			var o NIn
			l, o = r.inv(1)
			v.Q = &o
		case "g":
			v.G = [][]int{}
			var ls []string
			for i := r.h.rng.Intn(3); i > 0; i-- {
				t, o := r.intsv()
				ls, v.G = append(ls, t), append(v.G, o)
			}
			l = "[" + strings.Join(ls, ", ") + "]"
		case "t":
			v.T = []string{}
			var ls []string
			for i := r.h.rng.Intn(3); i > 0; i-- {
				t, o := r.strv()
				ls, v.T = append(ls, t), append(v.T, o)
			}
			l = "[" + strings.Join(ls, ", ") + "]"
		}
		lit = append(lit, f+r.h.pick(":", ": ")+l)
	}
	if len(lit) == 0 {
		return "", v
	}
	return "(" + strings.Join(lit, r.h.pick(" ", ",", ", ", "\n")) + ")", v
}

func (r *nReq) directives() []nDir {
	var out []nDir
	for r.h.chance(r.p.dirs) && len(out) < 4 {
		switch r.h.rng.Intn(5) {
		case 0, 1:
			l, v := r.boolv()
			out = append(out, nDir{text: "@skip(if: " + l + ")", skip: v})
		case 2:
			l, v := r.boolv()
			out = append(out, nDir{text: "@include(if:" + l + ")", skip: !v})
		case 3:
			l, v := r.boolv()
			if r.h.chance(50) {
				n, nv := r.intv()
				out = append(out, nDir{text: "@drop(when: " + l + ", n: " + n + ")", skip: v || nv > 5, call: "drop"})
			} else {
				out = append(out, nDir{text: "@drop(when: " + l + ")", skip: v, call: "drop"})
			}
		case 4:
			out = append(out, nDir{text: "@dropp", call: "dropp"})
		}
	}
	return out
}

func (r *nReq) selection(typ string, d int) []*nSel {
	var out []*nSel
	for i := 1 + r.h.rng.Intn(r.p.width); i > 0; i-- {
		if d >= 0 && r.h.chance(r.p.frags) {
			out = append(out, r.fragment(typ, d))
		} else {
			out = append(out, r.field(typ, d))
		}
	}
	return out
}

func (r *nReq) fragment(typ string, d int) *nSel {
	if len(r.frags) > 0 && r.h.chance(60) {
		f := r.frags[r.h.rng.Intn(len(r.frags))]
		return &nSel{kind: 's', frag: f, dirs: r.directives()}
	}
	on := typ
	if typ == "iface" {
		on = r.h.pick("NNode", "NLeaf")
	}
	body := on
	if r.h.chance(20) {
		on = r.h.pick("NNod", "NNode1", "NRoot", "NNode", "NLeaf")
		body = on
		if on == "NNod" || on == "NNode1" {
			body = "NNode"
		}
	}
	return &nSel{kind: 'i', on: on, dirs: r.directives(), sub: r.selection(body, d-1)}
}

func (r *nReq) field(typ string, d int) *nSel {
	h := r.h
	s := &nSel{kind: 'f'}
	switch typ {
	case "NRoot":
		s.name = h.pick("r", "r", "r", "__typename")
	case "NMut":
		s.name = h.pick("m", "m", "r", "__typename")
	case "NLeaf":
		s.name = h.pick("size", "next", "label", "__typename")
	case "iface":
		s.name = h.pick("label", "__typename")
	default:
		s.name = h.pick("num", "text", "flag", "opt", "nums", "grid", "color", "label", "where", "__typename")
		if d > 0 && h.chance(50) {
			s.name = h.pick("kids", "next", "sub", "many", "fns", "sub")
		}
		if h.chance(r.p.iface) {
			s.name = h.pick("any", "anys")
		}
		if h.chance(r.p.errs) {
			s.name = h.pick("fail", "fn", "fail", "sub")
		}
		if h.chance(r.p.args) {
			s.name = h.pick("echo", "echo", "plus")
		}
	}
	if d <= 0 {
		switch s.name {
		case "next", "kids", "sub", "many", "fns", "any", "anys":
			s.name = "label"
		case "r", "m":
			s.name = "__typename"
		}
	}
	s.key, s.named = r.key(s.name)
	s.dirs = r.directives()
	switch s.name {
	case "echo":
		s.text, s.args = r.echo()
	case "plus":
		a, av := r.intv()
		b, bv := r.intv()
		s.args = [2]int{av, bv}
		l := r.perm("a: "+a, "b:"+b)
		s.text = "(" + strings.Join(l, r.h.pick(" ", ", ")) + ")"
	case "fail":
		l, v := r.strv2()
		s.text, s.args = "(msg: "+l+")", v
	case "sub":
		var parts []string
		var msg *string
		if h.chance(r.p.errs) {
			l, v := r.strv2()
			parts, msg = append(parts, "msg: "+l), &v
		}
		isNil := false
		if h.chance(20) {
			var l string
			l, isNil = r.boolv()
			parts = append(parts, "nil: "+l)
		}
		if len(parts) > 0 {
			s.text = "(" + strings.Join(r.perm(parts...), ", ") + ")"
		}
		s.args = nSubArgs{msg, isNil}
	case "many":
		n := h.rng.Intn(4)
		s.text, s.args = "(n: "+r.value("Int", strconv.Itoa(n), strconv.Itoa(n))+")", n
	}
	if n := len(s.dirs); n > 0 && s.text != "" && s.dirs[n-1].call == "dropp" {
		// the arguments of the field would be read as those of the directive
		s.dirs = append(s.dirs, nDir{text: "@skip(if: false)"})
	}
	switch s.name {
	case "r":
		if typ == "NMut" {
			s.sub = r.selection("NLeaf", d-1)
		} else {
			s.sub = r.selection("NNode", d-1)
		}
	case "m", "next", "kids", "sub", "many", "fns":
		s.sub = r.selection("NNode", d-1)
	case "any", "anys":
		s.sub = r.selection("iface", d-1)
	}
	return s
}

type nSubArgs struct {
	msg   *string
	isNil bool
}

func (r *nReq) strv2() (string, string) {
	v := r.h.pick("oops", "it broke", "no", "x1")
	return r.value("String", `"`+v+`"`, `"`+v+`"`), v
}

func newNReq(h *vh, p nProfile) *nReq {
	if p.width == 0 {
		p.width = 4
	}
	if p.depth == 0 {
		p.depth = 4
	}
	if p.ops == 0 {
		p.ops = 1
	}
	r := &nReq{h: h, p: p, keys: map[string]bool{}}
	names := r.perm("A", "AB", "ABC", "B", "NNode", "a", "f1", "f11", "on1")
	if p.frags > 0 {
		for i := h.rng.Intn(6); i > 0; i-- {
			on := h.pick("NNode", "NNode", "NNode", "NLeaf", "NRoot", "NMut")
			f := &nFrag{name: names[i], on: on}
			f.sub = r.selection(on, 2)
			if h.chance(15) {
				f.on = h.pick("NNod", "NNode_")
			}
			r.frags = append(r.frags, f)
		}
	}
	names = r.perm("A", "AB", "ABC", "B", "q", "qq", "query1", "f1")
	n := 1 + h.rng.Intn(p.ops)
	for i := 0; i < n; i++ {
		op := &nOp{kind: h.pick("query", "query", "mutation"), name: names[i]}
		r.cur = op
		typ := "NRoot"
		if op.kind == "mutation" {
			typ = "NMut"
		}
		op.sub = r.selection(typ, p.depth)
		r.cur = nil
		r.ops = append(r.ops, op)
	}
	r.op = r.ops[h.rng.Intn(n)]
	if n == 1 && h.chance(50) {
		r.op.anon = true
	}
	return r
}

// ---- text

func (r *nReq) text() string {
	var parts []string
	for _, f := range r.frags {
		parts = append(parts, "fragment "+f.name+" on "+f.on+r.h.pick("", " ")+r.selText(f.sub))
	}
	for _, o := range r.ops {
		s := o.kind + " " + o.name
		if o.anon {
			s = r.h.pick(o.kind, o.kind+" ")
			if o.kind == "query" && len(o.varDefs) == 0 && r.h.chance(50) {
				s = ""
			}
		}
		if len(o.varDefs) > 0 {
			s += "(" + strings.Join(o.varDefs, r.h.pick(" ", ", ", "\n")) + ")"
		}
		parts = append(parts, s+r.h.pick("", " ")+r.selText(o.sub))
	}
	return strings.Join(r.perm(parts...), r.h.pick("\n", " "))
}

func (r *nReq) vars() string {
	if len(r.op.vars) == 0 {
		return r.h.pick("", "{}")
	}
	return "{" + strings.Join(r.perm(r.op.vars...), ",") + "}"
}

func (r *nReq) target() string {
	if r.op.anon {
		return ""
	}
	return r.op.name
}

func (r *nReq) dirText(ds []nDir) string {
	s := ""
	for _, d := range ds {
		s += " " + d.text
	}
	return s
}

func (r *nReq) selText(sub []*nSel) string {
	var parts []string
	for _, s := range sub {
		t := ""
		switch s.kind {
		case 's':
			t = "..." + r.h.pick("", " ") + s.frag.name + r.dirText(s.dirs)
		case 'i':
			t = "... on " + s.on + r.dirText(s.dirs) + " " + r.selText(s.sub)
		default:
			if s.named {
				t = s.key + r.h.pick(":", ": ")
			}
			// the parser wants the directives before the arguments
			t += s.name + r.dirText(s.dirs) + s.text
			if s.sub != nil {
				t += r.h.pick("", " ") + r.selText(s.sub)
			}
		}
		parts = append(parts, t)
	}
	return "{" + strings.Join(parts, r.h.pick(" ", "\n", ", ")) + "}"
}

// ---- interpreter

type nModel struct {
	m     *nSchema
	path  []string
	errs  []string
	calls []string
}

func (x *nModel) log(s string) { x.calls = append(x.calls, s) }
func (x *nModel) err(msg string) {
	x.errs = append(x.errs, fmt.Sprintf(`{"message":"%s","path":[%s]}`, msg, strings.Join(x.path, ",")))
}
func (x *nModel) at(p string, f func() string) string {
	x.path = append(x.path, p)
	s := f()
	x.path = x.path[:len(x.path)-1]
	return s
}

// expect gives the response and the resolver calls a request must have
func (r *nReq) expect(m *nSchema) (string, []string) {
	x := &nModel{m: m, calls: []string{}}
	var d string
	if r.op.kind == "mutation" {
		d = x.object("NMut", nil, r.op.sub)
	} else {
		d = x.object("NRoot", nil, r.op.sub)
	}
	out := `{"data":` + d
	if len(x.errs) > 0 {
		out += `,"errors":[` + strings.Join(x.errs, ",") + `],"extensions":{}`
	}
	return out + "}", x.calls
}

func (x *nModel) object(typ string, o interface{}, sub []*nSel) string {
	var parts []string
	x.into(typ, o, sub, &parts)
	return "{" + strings.Join(parts, ",") + "}"
}

func (x *nModel) skipped(ds []nDir) bool {
	for _, d := range ds {
		if d.call != "" {
			x.log(d.call)
		}
		if d.skip {
			return true
		}
	}
	return false
}

func (x *nModel) into(typ string, o interface{}, sub []*nSel, parts *[]string) {
	for _, s := range sub {
		if x.skipped(s.dirs) {
			continue
		}
		switch s.kind {
		case 's':
			if s.frag.on == typ {
				x.into(typ, o, s.frag.sub, parts)
			}
		case 'i':
			if s.on == typ {
				x.into(typ, o, s.sub, parts)
			}
		default:
			v := x.at(`"`+s.key+`"`, func() string { return x.field(typ, o, s) })
			*parts = append(*parts, `"`+s.key+`":`+v)
		}
	}
}

func nStr(s string) string { b, _ := json.Marshal(s); return string(b) }

func (x *nModel) list(n int, f func(i int) string) string {
	var parts []string
	for i := 0; i < n; i++ {
		i := i
		parts = append(parts, x.at(strconv.Itoa(i), func() string { return f(i) }))
	}
	return "[" + strings.Join(parts, ",") + "]"
}

func (x *nModel) nodePtr(p *NNode, s *nSel) string {
	if p == nil {
		return "null"
	}
	return x.object("NNode", *p, s.sub)
}

func (x *nModel) iface(v NIface, s *nSel) string {
	switch o := v.(type) {
	case NNode:
		return x.object("NNode", o, s.sub)
	case NLeaf:
		return x.object("NLeaf", o, s.sub)
	}
	return "null"
}

func (x *nModel) field(typ string, o interface{}, s *nSel) string {
	if s.name == "__typename" {
		return `"` + typ + `"`
	}
	switch typ {
	case "NRoot":
		return x.object("NNode", *x.m.root, s.sub)
	case "NMut":
		if s.name == "r" {
			return x.object("NLeaf", *x.m.leaf, s.sub)
		}
		return x.object("NNode", *x.m.mut, s.sub)
	case "NLeaf":
		n := o.(NLeaf)
		switch s.name {
		case "size":
			return strconv.Itoa(n.Size)
		case "next":
			return x.nodePtr(n.Next, s)
		}
		x.log("leaf")
		return nStr("l" + strconv.Itoa(n.Size))
	}
	n := o.(NNode)
	switch s.name {
	case "num":
		return strconv.Itoa(n.Num)
	case "text":
		return nStr(n.Text)
	case "flag":
		return strconv.FormatBool(n.Flag)
	case "opt":
		if n.Opt == nil {
			return "null"
		}
		return nStr(*n.Opt)
	case "nums":
		if n.Nums == nil {
			return "null"
		}
		return x.list(len(n.Nums), func(i int) string { return strconv.Itoa(n.Nums[i]) })
	case "grid":
		if n.Grid == nil {
			return "null"
		}
		return x.list(len(n.Grid), func(i int) string {
			if n.Grid[i] == nil {
				return "null"
			}
			return x.list(len(n.Grid[i]), func(j int) string { return nStr(n.Grid[i][j]) })
		})
	case "kids":
		if n.Kids == nil {
			return "null"
		}
		return x.list(len(n.Kids), func(i int) string { return x.object("NNode", n.Kids[i], s.sub) })
	case "next":
		return x.nodePtr(n.Next, s)
	case "any":
		return x.iface(n.Any, s)
	case "anys":
		if n.Anys == nil {
			return "null"
		}
		return x.list(len(n.Anys), func(i int) string { return x.iface(n.Anys[i], s) })
	case "color":
		for k, v := range nColors {
			if v == n.Color {
				return `"` + k + `"`
			}
		}
		return "null"
	case "fn":
		if n.Fn == nil {
			return "null"
		}
		w, e := n.Fn()
		nCalls = nCalls[:len(nCalls)-1]
		x.log("fn")
		if e != nil {
			x.err(e.Error())
		}
		return nStr(w)
	case "fns":
		if n.Fns == nil {
			return "null"
		}
		ks, e := n.Fns()
		nCalls = nCalls[:len(nCalls)-1]
		x.log("fns")
		if e != nil {
			x.err(e.Error())
		}
		if ks == nil {
			return "null"
		}
		return x.list(len(ks), func(i int) string { return x.object("NNode", ks[i], s.sub) })
	case "label":
		x.log("label")
		return nStr("n" + strconv.Itoa(n.Num))
	case "where":
		x.log("where")
		return nStr("[" + strings.Join(x.path, ",") + "]")
	case "echo":
		b, _ := json.Marshal(s.args)
		x.log("echo " + string(b))
		return nStr(string(b))
	case "plus":
		a := s.args.([2]int)
		x.log(fmt.Sprint("plus ", a[0], a[1]))
		return strconv.Itoa(a[0]*1000 + a[1])
	case "fail":
		x.log("fail " + s.args.(string))
		x.err(s.args.(string))
		return `"failed"`
	case "sub":
		a := s.args.(nSubArgs)
		x.log("sub [" + strings.Join(x.path, ",") + "]")
		if a.msg != nil {
			x.err(*a.msg)
		}
		if a.isNil {
			return "null"
		}
		return x.nodePtr(nNode2, s)
	case "many":
		x.log("many")
		return x.list(s.args.(int), func(i int) string { return x.object("NNode", *nNode2, s.sub) })
	}
	return "?" + s.name
}

// modelCase runs one random request and compares the whole answer and the calls with the model's
func modelCase(h *vh, m *nSchema, p nProfile, what string) {
	r := newNReq(h, p)
	q, vars, target := r.text(), r.vars(), r.target()
	in := q + "\nvariables " + vars + " operation " + target
	want, wantCalls := r.expect(m)
	h.run(in, func() {
		nCalls = []string{}
		got, _ := execute(m.s, q, yarql.ResolveOptions{Variables: vars, OperatorTarget: target})
		calls := nCalls
		h.sameAnswer(what, in, got, want)
		h.eq(what+": resolver calls", in, calls, wantCalls)
	})
}

// sameAnswer compares two responses: the same members, the same data, the same errors in the same order
func (h *vh) sameAnswer(what, in, got, want string) {
	if got == want || h.failed {
		return
	}
	if p := jsonProblem(got); p != "" {
		h.fail(what, in, got, want)
		return
	}
	norm := func(s string) string {
		var v map[string]interface{}
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if d.Decode(&v) != nil {
			return s
		}
		delete(v, "extensions")
		b, _ := json.Marshal(v)
		return string(b)
	}
	if norm(got) != norm(want) {
		h.fail(what, in, got, want)
	}
}
