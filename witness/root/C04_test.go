package yarql_test

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"testing"

	"github.com/mjarkk/yarql"
)

type c04Root struct{ V *c04Vals }

type c04Vals struct {
	S   string    `gq:"s"`
	B   bool      `gq:"b"`
	I   int       `gq:"i"`
	I8  int8      `gq:"i8"`
	I16 int16     `gq:"i16"`
	I32 int32     `gq:"i32"`
	I64 int64     `gq:"i64"`
	U   uint      `gq:"u"`
	U8  uint8     `gq:"u8"`
	U16 uint16    `gq:"u16"`
	U32 uint32    `gq:"u32"`
	U64 uint64    `gq:"u64"`
	F32 float32   `gq:"f32"`
	F64 float64   `gq:"f64"`
	PS  *string   `gq:"pS"`
	PI  *int64    `gq:"pI"`
	PF  *float64  `gq:"pF"`
	PB  *bool     `gq:"pB"`
	PPU **uint64  `gq:"pPU"`
	LI  []int8    `gq:"lI"`
	LF  []float32 `gq:"lF"`
	LPS []*string `gq:"lPS"`
	ID  uint64    `gq:"id,ID"`
	SID string    `gq:"sid,ID"`
}

func TestVerifC04(t *testing.T) {
	h := newVH(t, "one schema with every scalar kind, direct, behind one and two pointers and in lists; random and extreme values")
	q := &c04Vals{}
	s := mustSchema(h, "C04", c04Root{q}, vM{}, nil)
	if s == nil {
		h.done()
		return
	}
	const query = `{v{s b i i8 i16 i32 i64 u u8 u16 u32 u64 f32 f64 pS pI pF pB pPU lI lF lPS id sid}}`
	str := func() string { return string(h.bytes(1 + h.rng.Intn(8))) }
	valid := func(s string) string {
		o := ""
		for _, r := range s {
			o += string(r)
		}
		return o
	}
	for n := h.n(3000, 60000); n > 0 && h.more(); n-- {
		bits := func() uint64 {
			switch h.rng.Intn(4) {
			case 0:
				return 0
			case 1:
				return math.MaxUint64
			case 2:
				return 1 << uint(h.rng.Intn(64))
			}
			return h.rng.Uint64()
		}
		fl := func() float64 {
			f := math.Float64frombits(bits())
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return 1e-7
			}
			return f
		}
		f32 := func() float32 {
			f := math.Float32frombits(uint32(bits()))
			if f != f || math.IsInf(float64(f), 0) {
				return 1e21
			}
			return f
		}
		*q = c04Vals{S: str(), B: h.chance(50), I: int(bits()), I8: int8(bits()), I16: int16(bits()), I32: int32(bits()), I64: int64(bits()),
			U: uint(bits()), U8: uint8(bits()), U16: uint16(bits()), U32: uint32(bits()), U64: bits(), F32: f32(), F64: fl(), ID: bits(), SID: str()}
		if h.chance(50) {
			x, y, z, b, u := str(), int64(bits()), fl(), h.chance(50), bits()
			pu := &u
			q.PS, q.PI, q.PF, q.PB, q.PPU = &x, &y, &z, &b, &pu
			if h.chance(25) {
				pu = nil
			}
		}
		if h.chance(50) {
			q.LI = []int8{}
			for k := h.rng.Intn(4); k > 0; k-- {
				q.LI = append(q.LI, int8(bits()))
				q.LF = append(q.LF, f32())
				x := str()
				q.LPS = append(q.LPS, &x, nil)
			}
		}
		in := fmt.Sprintf("%+v", *q)
		h.run(in, func() {
			out, errs := execute(s, query, yarql.ResolveOptions{})
			if len(errs) > 0 {
				h.fail("errors", in, fmt.Sprint(errs), "none")
				return
			}
			if p := jsonProblem(out); p != "" {
				h.fail("invalid JSON: "+p, in, out, "valid JSON")
				return
			}
			var got struct {
				Data struct{ V map[string]json.RawMessage } `json:"data"`
			}
			if err := json.Unmarshal([]byte(out), &got); err != nil {
				h.fail(err.Error(), in, out, "")
				return
			}
			num := func(name, want string) { h.eq(name, in, string(got.Data.V[name]), want) }
			text := func(name, want string) {
				var x interface{}
				json.Unmarshal(got.Data.V[name], &x)
				h.eq(name, in, fmt.Sprintf("%#v", x), fmt.Sprintf("%#v", valid(want)))
			}
			flt := func(name string, raw json.RawMessage, want float64, bits int) {
				f, err := strconv.ParseFloat(string(raw), bits)
				if err != nil || f != want {
					h.fail(name, in, string(raw), strconv.FormatFloat(want, 'g', -1, bits))
				}
			}
			text("s", q.S)
			text("sid", q.SID)
			num("b", strconv.FormatBool(q.B))
			num("i", fmt.Sprint(q.I))
			num("i8", fmt.Sprint(q.I8))
			num("i16", fmt.Sprint(q.I16))
			num("i32", fmt.Sprint(q.I32))
			num("i64", fmt.Sprint(q.I64))
			num("u", fmt.Sprint(q.U))
			num("u8", fmt.Sprint(q.U8))
			num("u16", fmt.Sprint(q.U16))
			num("u32", fmt.Sprint(q.U32))
			num("u64", fmt.Sprint(q.U64))
			num("id", fmt.Sprintf(`"%d"`, q.ID))
			flt("f32", got.Data.V["f32"], float64(q.F32), 32)
			flt("f64", got.Data.V["f64"], q.F64, 64)
			if q.PS == nil {
				for _, n := range []string{"pS", "pI", "pF", "pB", "pPU"} {
					num(n, "null")
				}
			} else {
				text("pS", *q.PS)
				num("pI", fmt.Sprint(*q.PI))
				flt("pF", got.Data.V["pF"], *q.PF, 64)
				num("pB", strconv.FormatBool(*q.PB))
				if *q.PPU == nil {
					num("pPU", "null")
				} else {
					num("pPU", fmt.Sprint(**q.PPU))
				}
			}
			var li []json.RawMessage
			json.Unmarshal(got.Data.V["lI"], &li)
			if q.LI == nil {
				num("lI", "null")
			} else if len(li) != len(q.LI) {
				h.fail("lI", in, string(got.Data.V["lI"]), fmt.Sprint(q.LI))
			} else {
				for i, x := range q.LI {
					h.eq("lI", in, string(li[i]), fmt.Sprint(x))
				}
			}
			var lf []json.RawMessage
			json.Unmarshal(got.Data.V["lF"], &lf)
			for i, x := range q.LF {
				if i < len(lf) {
					flt("lF", lf[i], float64(x), 32)
				}
			}
		})
	}
	h.done()
}
