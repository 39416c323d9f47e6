package yarql_test

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

type c06oint struct {
	V int   `gq:"v"`
	P *int  `gq:"p"`
	L []int `gq:"l"`
	I int   `gq:"i,ID"`
}
type c06oint8 struct {
	V int8   `gq:"v"`
	P *int8  `gq:"p"`
	L []int8 `gq:"l"`
	I int8   `gq:"i,ID"`
}
type c06oint16 struct {
	V int16   `gq:"v"`
	P *int16  `gq:"p"`
	L []int16 `gq:"l"`
	I int16   `gq:"i,ID"`
}
type c06oint32 struct {
	V int32   `gq:"v"`
	P *int32  `gq:"p"`
	L []int32 `gq:"l"`
	I int32   `gq:"i,ID"`
}
type c06oint64 struct {
	V int64   `gq:"v"`
	P *int64  `gq:"p"`
	L []int64 `gq:"l"`
	I int64   `gq:"i,ID"`
}
type c06ouint struct {
	V uint   `gq:"v"`
	P *uint  `gq:"p"`
	L []uint `gq:"l"`
	I uint   `gq:"i,ID"`
}
type c06ouint8 struct {
	V uint8   `gq:"v"`
	P *uint8  `gq:"p"`
	L []uint8 `gq:"l"`
	I uint8   `gq:"i,ID"`
}
type c06ouint16 struct {
	V uint16   `gq:"v"`
	P *uint16  `gq:"p"`
	L []uint16 `gq:"l"`
	I uint16   `gq:"i,ID"`
}
type c06ouint32 struct {
	V uint32   `gq:"v"`
	P *uint32  `gq:"p"`
	L []uint32 `gq:"l"`
	I uint32   `gq:"i,ID"`
}
type c06ouint64 struct {
	V uint64   `gq:"v"`
	P *uint64  `gq:"p"`
	L []uint64 `gq:"l"`
	I uint64   `gq:"i,ID"`
}

type c06Args struct {
	Vint    int         `gq:"vint"`
	Pint    *int        `gq:"pint"`
	Lint    []int       `gq:"lint"`
	Nint    [][]int     `gq:"nint"`
	Oint    c06oint     `gq:"oint"`
	Qint    *c06oint    `gq:"qint"`
	Iint    int         `gq:"iint,ID"`
	Jint    *int        `gq:"jint,ID"`
	Vint8   int8        `gq:"vint8"`
	Pint8   *int8       `gq:"pint8"`
	Lint8   []int8      `gq:"lint8"`
	Nint8   [][]int8    `gq:"nint8"`
	Oint8   c06oint8    `gq:"oint8"`
	Qint8   *c06oint8   `gq:"qint8"`
	Iint8   int8        `gq:"iint8,ID"`
	Jint8   *int8       `gq:"jint8,ID"`
	Vint16  int16       `gq:"vint16"`
	Pint16  *int16      `gq:"pint16"`
	Lint16  []int16     `gq:"lint16"`
	Nint16  [][]int16   `gq:"nint16"`
	Oint16  c06oint16   `gq:"oint16"`
	Qint16  *c06oint16  `gq:"qint16"`
	Iint16  int16       `gq:"iint16,ID"`
	Jint16  *int16      `gq:"jint16,ID"`
	Vint32  int32       `gq:"vint32"`
	Pint32  *int32      `gq:"pint32"`
	Lint32  []int32     `gq:"lint32"`
	Nint32  [][]int32   `gq:"nint32"`
	Oint32  c06oint32   `gq:"oint32"`
	Qint32  *c06oint32  `gq:"qint32"`
	Iint32  int32       `gq:"iint32,ID"`
	Jint32  *int32      `gq:"jint32,ID"`
	Vint64  int64       `gq:"vint64"`
	Pint64  *int64      `gq:"pint64"`
	Lint64  []int64     `gq:"lint64"`
	Nint64  [][]int64   `gq:"nint64"`
	Oint64  c06oint64   `gq:"oint64"`
	Qint64  *c06oint64  `gq:"qint64"`
	Iint64  int64       `gq:"iint64,ID"`
	Jint64  *int64      `gq:"jint64,ID"`
	Vuint   uint        `gq:"vuint"`
	Puint   *uint       `gq:"puint"`
	Luint   []uint      `gq:"luint"`
	Nuint   [][]uint    `gq:"nuint"`
	Ouint   c06ouint    `gq:"ouint"`
	Quint   *c06ouint   `gq:"quint"`
	Iuint   uint        `gq:"iuint,ID"`
	Juint   *uint       `gq:"juint,ID"`
	Vuint8  uint8       `gq:"vuint8"`
	Puint8  *uint8      `gq:"puint8"`
	Luint8  []uint8     `gq:"luint8"`
	Nuint8  [][]uint8   `gq:"nuint8"`
	Ouint8  c06ouint8   `gq:"ouint8"`
	Quint8  *c06ouint8  `gq:"quint8"`
	Iuint8  uint8       `gq:"iuint8,ID"`
	Juint8  *uint8      `gq:"juint8,ID"`
	Vuint16 uint16      `gq:"vuint16"`
	Puint16 *uint16     `gq:"puint16"`
	Luint16 []uint16    `gq:"luint16"`
	Nuint16 [][]uint16  `gq:"nuint16"`
	Ouint16 c06ouint16  `gq:"ouint16"`
	Quint16 *c06ouint16 `gq:"quint16"`
	Iuint16 uint16      `gq:"iuint16,ID"`
	Juint16 *uint16     `gq:"juint16,ID"`
	Vuint32 uint32      `gq:"vuint32"`
	Puint32 *uint32     `gq:"puint32"`
	Luint32 []uint32    `gq:"luint32"`
	Nuint32 [][]uint32  `gq:"nuint32"`
	Ouint32 c06ouint32  `gq:"ouint32"`
	Quint32 *c06ouint32 `gq:"quint32"`
	Iuint32 uint32      `gq:"iuint32,ID"`
	Juint32 *uint32     `gq:"juint32,ID"`
	Vuint64 uint64      `gq:"vuint64"`
	Puint64 *uint64     `gq:"puint64"`
	Luint64 []uint64    `gq:"luint64"`
	Nuint64 [][]uint64  `gq:"nuint64"`
	Ouint64 c06ouint64  `gq:"ouint64"`
	Quint64 *c06ouint64 `gq:"quint64"`
	Iuint64 uint64      `gq:"iuint64,ID"`
	Juint64 *uint64     `gq:"juint64,ID"`
}

var c06Got *c06Args

type c06Q struct{}

func (c06Q) ResolveF(a c06Args) int {
	c06Got = &a
	return 1
}

// c06Shape: how one integer is written inside an argument and where it ends up
type c06Shape struct {
	field string // first letter of the field
	wrap  func(v string) string
	get   func(v reflect.Value) (reflect.Value, bool)
	id    bool
	typ   func(gq string) string
}

func c06Deref(v reflect.Value) (reflect.Value, bool) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	return v, true
}

func c06Idx(v reflect.Value, i, n int) (reflect.Value, bool) {
	v, ok := c06Deref(v)
	if !ok || v.Len() != n {
		return v, false
	}
	return v.Index(i), true
}

func TestVerifC06(t *testing.T) {
	h := newVH(t, "ten integer types as plain, pointer, list, nested list, input object and ID arguments, given as literals, variables and ID strings; the boundaries of all widths and their neighbours, powers of two and seeded random values")
	s := mustSchema(h, "integer arguments", c06Q{}, vM{}, nil)
	kinds := []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}
	bits := map[string]uint{"int": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "uint": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}
	one := big.NewInt(1)
	pow := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	inRange := func(k string, v *big.Int) bool {
		if k[0] == 'u' {
			return v.Sign() >= 0 && v.Cmp(pow(bits[k])) < 0
		}
		lim := pow(bits[k] - 1)
		return v.Cmp(lim) < 0 && v.Cmp(new(big.Int).Neg(lim)) >= 0
	}
	self := func(v reflect.Value) (reflect.Value, bool) { return c06Deref(v) }
	fld := func(n string) func(v reflect.Value) (reflect.Value, bool) {
		return func(v reflect.Value) (reflect.Value, bool) {
			v, ok := c06Deref(v)
			if !ok {
				return v, false
			}
			f := v.FieldByName(n)
			if n == "L" {
				return c06Idx(f, 0, 1)
			}
			return c06Deref(f)
		}
	}
	id := func(v string) string { return v }
	shapes := []c06Shape{
		{field: "v", wrap: id, get: self},
		{field: "p", wrap: id, get: self},
		{field: "l", wrap: func(v string) string { return "[1, " + v + "]" }, get: func(v reflect.Value) (reflect.Value, bool) { return c06Idx(v, 1, 2) }},
		{field: "l", wrap: func(v string) string { return "[" + v + ",2]" }, get: func(v reflect.Value) (reflect.Value, bool) { return c06Idx(v, 0, 2) }},
		{field: "n", wrap: func(v string) string { return "[[3],[" + v + "]]" }, get: func(v reflect.Value) (reflect.Value, bool) {
			v, ok := c06Idx(v, 1, 2)
			if !ok {
				return v, false
			}
			return c06Idx(v, 0, 1)
		}},
		{field: "o", wrap: func(v string) string { return "{KvK:" + v + "}" }, get: fld("V")},
		{field: "o", wrap: func(v string) string { return "{KpK:" + v + "}" }, get: fld("P")},
		{field: "o", wrap: func(v string) string { return "{KvK:1,KlK:[" + v + "]}" }, get: fld("L")},
		{field: "q", wrap: func(v string) string { return "{KlK:[" + v + "]}" }, get: fld("L")},
		{field: "q", wrap: func(v string) string { return "{KvK:" + v + "}" }, get: fld("V")},
		{field: "i", wrap: id, get: self, id: true},
		{field: "j", wrap: id, get: self, id: true},
		{field: "o", wrap: func(v string) string { return "{KiK:" + v + "}" }, get: fld("I"), id: true},
		{field: "q", wrap: func(v string) string { return "{KiK:" + v + "}" }, get: fld("I"), id: true},
	}
	keys := func(s string, json bool) string {
		parts := strings.Split(s, "K")
		for i := 1; i < len(parts); i += 2 {
			if json {
				parts[i] = `"` + parts[i] + `"`
			}
		}
		return strings.Join(parts, "")
	}
	// declared types of variables
	typeOf := map[string]string{}
	if s == nil {
		h.done()
		return
	}
	rt := reflect.TypeOf(c06Args{})
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		n := strings.Split(f.Tag.Get("gq"), ",")[0]
		var name func(t reflect.Type) string
		name = func(t reflect.Type) string {
			switch t.Kind() {
			case reflect.Ptr:
				return name(t.Elem())
			case reflect.Slice:
				return "[" + name(t.Elem()) + "!]"
			case reflect.Struct:
				return t.Name()
			}
			return "Int"
		}
		typeOf[n] = name(f.Type)
		if strings.Contains(f.Tag.Get("gq"), ",ID") {
			typeOf[n] = "ID"
		}
		if f.Type.Kind() != reflect.Ptr {
			typeOf[n] += "!"
		}
	}
	check := func(k string, sh c06Shape, text string, exact *big.Int, src int) {
		arg := sh.field + k
		v := text
		if sh.id {
			v = `"` + text + `"`
		}
		var q, vars string
		switch src {
		case 0: // literal
			q = "{f(" + arg + ":" + keys(sh.wrap(v), false) + ")}"
		case 1: // the whole argument is a variable
			q = "query($x:" + typeOf[arg] + "){f(" + arg + ":$x)}"
			vars = `{"x":` + keys(sh.wrap(v), true) + `}`
		case 2: // the variable has a default
			q = "query($x:" + typeOf[arg] + "=" + keys(sh.wrap(v), false) + "){f(" + arg + ":$x)}"
			vars = `{}`
		case 3: // no variables given, only the default
			q = "query($x:" + typeOf[arg] + "=" + keys(sh.wrap(v), false) + "){f(" + arg + ":$x)}"
		}
		in := fmt.Sprintf("%s variables %s", q, vars)
		h.run(in, func() {
			c06Got = nil
			_, errs := data(s, q, vars)
			if len(errs) > 0 {
				if c06Got != nil {
					h.fail("resolver called although the request reports an error", in, errs, "not called")
				}
				if exact != nil && inRange(k, exact) && exact.IsInt64() && exact.String() == text {
					h.fail("value in range is rejected", in, errs, "accepted")
				}
				return
			}
			if c06Got == nil {
				h.fail("resolver not called and no error", in, "-", "-")
				return
			}
			f := reflect.ValueOf(c06Got).Elem().FieldByName(strings.ToUpper(sh.field) + k)
			g, ok := sh.get(f)
			if !ok {
				h.fail("the argument is not stored", in, f, "a value")
				return
			}
			got := fmt.Sprint(g.Interface())
			if exact == nil {
				h.fail("a text that is no integer is stored", in, got, "an error")
				return
			}
			h.eq("stored integer", in, got, exact.String())
		})
	}
	every := func(text string, exact *big.Int) {
		for _, k := range kinds {
			for _, sh := range shapes {
				for src := 0; src < 4; src++ {
					check(k, sh, text, exact, src)
				}
			}
		}
	}
	edge := []*big.Int{big.NewInt(0)}
	for _, b := range []uint{7, 8, 15, 16, 31, 32, 63, 64} {
		for _, d := range []int64{-2, -1, 0, 1} {
			v := new(big.Int).Add(pow(b), big.NewInt(d))
			edge = append(edge, v, new(big.Int).Neg(v))
		}
	}
	for _, v := range edge {
		every(v.String(), v)
	}
	for b := uint(1); b < 70; b++ {
		every(pow(b).String(), pow(b))
	}
	for _, tx := range []string{"1.5", "1e2", "1E30", "-1.0", "0.1e1"} {
		every(tx, nil)
	}
	for i := 0; h.more() && i < h.n(4000, 60000); i++ {
		v := new(big.Int).Rand(h.rng, pow(uint(1+h.rng.Intn(68))))
		if h.chance(50) {
			v.Neg(v)
		}
		check(kinds[h.rng.Intn(len(kinds))], shapes[h.rng.Intn(len(shapes))], v.String(), v, h.rng.Intn(4))
	}
	// ID strings that are no canonical integers
	for _, tx := range []string{"+5", "05", "0x10", "1_0", " 1", "1 ", "", "--1", "9999999999999999999999999", "1a"} {
		for _, k := range kinds {
			for _, sh := range shapes {
				if !sh.id {
					continue
				}
				ex, ok := new(big.Int).SetString(tx, 10)
				if !ok || strings.Contains(tx, "_") {
					ex = nil
				}
				for src := 0; src < 2; src++ {
					check(k, sh, tx, ex, src)
				}
			}
		}
	}
	h.done()
}

var _ = yarql.ResolveOptions{}
