package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vkind int

const (
	kScalar vkind = iota
	kSlice
	kStruct
	kAddr
	kTuple
	kPoison
	kIter
)

type Val struct {
	K   vkind
	T   types.Type
	S   string    // scalar term
	Srt string    // sort for spec-level values without Go type
	Sl  [4]string // slice: base off len cap
	Fs  []*Val
	A   *Addr
	Clo *Closure
	Msg string
	It  *Iter
}

type Closure struct {
	Fn       *ssa.Function
	Bindings []*Val
}

type Iter struct {
	id   int // local state id holding position
	x    *Val
	kind string
}

type akind int

const (
	aLocal  akind = iota // local state variable id
	aField               // leaf field of struct ref
	aElem                // element of array object base at idx
	aCell                // C_T[ref]
	aArr                 // whole array object with base ref
	aGlobal              // global variable
)

type Addr struct {
	K     akind
	T     types.Type // pointee type
	ID    int        // local
	Path  []int      // path inside local struct
	Heap  string     // heap prefix
	Ref   string     // ref/base
	Idx   string
	Const *ssa.Const // the constant a global always holds
}

func scalar(t types.Type, s string) *Val { return &Val{K: kScalar, T: t, S: s} }
func mkBool(s string) *Val               { return &Val{K: kScalar, T: types.Typ[types.Bool], S: s, Srt: "Bool"} }
func mkInt(s string) *Val                { return &Val{K: kScalar, T: types.Typ[types.Int], S: s, Srt: "Int"} }

func (v *Val) sort() string {
	if v.Srt != "" {
		return v.Srt
	}
	if v.T != nil {
		return leavesOf(v.T)[0].sort
	}
	return "Int"
}

func flatten(v *Val) []string {
	switch v.K {
	case kScalar:
		return []string{v.S}
	case kSlice:
		return v.Sl[:]
	case kStruct, kTuple:
		var out []string
		for _, f := range v.Fs {
			out = append(out, flatten(f)...)
		}
		return out
	case kAddr:
		if v.A.K == aCell || v.A.K == aArr {
			return []string{v.A.Ref}
		}
		panic(unsup("address of %v used as a value (pointer to %s)", v.A.K, v.A.T))
	case kPoison:
		panic(unsup("%s", v.Msg))
	}
	panic(unsup("flatten kind %d", v.K))
}

func unflatten(t types.Type, ts []string) (*Val, []string) {
	if tp, ok := t.(*types.Tuple); ok {
		v := &Val{K: kTuple, T: t}
		for i := 0; i < tp.Len(); i++ {
			var f *Val
			f, ts = unflatten(tp.At(i).Type(), ts)
			v.Fs = append(v.Fs, f)
		}
		return v, ts
	}
	if st := structOf(t); st != nil {
		v := &Val{K: kStruct, T: t}
		for i := 0; i < st.NumFields(); i++ {
			var f *Val
			f, ts = unflatten(st.Field(i).Type(), ts)
			v.Fs = append(v.Fs, f)
		}
		return v, ts
	}
	ls := leavesOf(t)
	if len(ls) == 4 {
		return &Val{K: kSlice, T: t, Sl: [4]string{ts[0], ts[1], ts[2], ts[3]}}, ts[4:]
	}
	return scalar(t, ts[0]), ts[1:]
}

func flatT(t types.Type) []leaf {
	if tp, ok := t.(*types.Tuple); ok {
		var out []leaf
		for i := 0; i < tp.Len(); i++ {
			out = append(out, flatLeaves(tp.At(i).Type())...)
		}
		return out
	}
	return flatLeaves(t)
}

func zeroTerm(sort string) string {
	switch sort {
	case "Int":
		return "0"
	case "Bool":
		return "false"
	case "Str":
		return "str_empty"
	case "Flt":
		return "flt_zero"
	}
	if strings.HasPrefix(sort, "(Array Int ") {
		return "((as const " + sort + ") " + zeroTerm(sort[len("(Array Int "):len(sort)-1]) + ")"
	}
	panic(unsup("zero of sort %s", sort))
}

func zeroVal(t types.Type) *Val {
	var ts []string
	for _, l := range flatT(t) {
		ts = append(ts, zeroTerm(l.sort))
	}
	v, _ := unflatten(t, ts)
	return v
}

func and(xs ...string) string {
	var out []string
	for _, x := range xs {
		if x == "true" || x == "" {
			continue
		}
		if x == "false" {
			return "false"
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return "true"
	case 1:
		return out[0]
	}
	return "(and " + strings.Join(out, " ") + ")"
}
func or(xs ...string) string {
	var out []string
	for _, x := range xs {
		if x == "false" || x == "" {
			continue
		}
		if x == "true" {
			return "true"
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return "false"
	case 1:
		return out[0]
	}
	return "(or " + strings.Join(out, " ") + ")"
}
func not(x string) string {
	if x == "true" {
		return "false"
	}
	if x == "false" {
		return "true"
	}
	if strings.HasPrefix(x, "(not ") {
		return x[5 : len(x)-1]
	}
	return "(not " + x + ")"
}
func imp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}
func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}
func ite(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}
func app(f string, xs ...string) string { return "(" + f + " " + strings.Join(xs, " ") + ")" }

func isNum(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}
func add(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	if isNum(a) && isNum(b) && len(a) < 9 && len(b) < 9 {
		return itoa(atoi(a) + atoi(b))
	}
	return "(+ " + a + " " + b + ")"
}
func sub(a, b string) string {
	if b == "0" {
		return a
	}
	if a == b {
		return "0"
	}
	return "(- " + a + " " + b + ")"
}
