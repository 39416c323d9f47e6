package yarql_test

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

// c15Ctx: a context with a switchable error
type c15Ctx struct {
	context.Context
	name string
	err  error
}

func (c *c15Ctx) Err() error { return c.err }

var c15Step func(ctx *yarql.Ctx, i int) int

type c15O struct{}
type c15Q struct{}

func (c15Q) ResolveStep(ctx *yarql.Ctx, a struct{ I int }) int { return c15Step(ctx, a.I) }
func (c15Q) ResolveSub(ctx *yarql.Ctx, a struct{ I int }) c15O { c15Step(ctx, a.I); return c15O{} }
func (c15Q) ResolveList(ctx *yarql.Ctx, a struct{ I int }) []c15O {
	c15Step(ctx, a.I)
	return []c15O{{}, {}}
}
func (c15O) ResolveStep(ctx *yarql.Ctx, a struct{ I int }) (int, error) {
	return c15Step(ctx, a.I), nil
}

func TestVerifC15(t *testing.T) {
	h := newVH(t, "seeded random histories of up to 12 resolver calls with up to 4 SetValue/GetValue/GetValueOk/SetContext/GetContext calls each, in nested objects and lists, with and without initial values and context, with cancellation at any call")
	s := mustSchema(h, "context", c15Q{}, vM{}, nil)
	if s == nil {
		h.done()
		return
	}
	for n := 0; h.more() && n < h.n(3000, 40000); n++ {
		model := map[string]interface{}{}
		var initial *map[string]interface{}
		in := "no values"
		switch h.rng.Intn(4) {
		case 0:
			var m map[string]interface{}
			initial = &m
			in = "nil map"
		case 1:
			initial = &map[string]interface{}{}
			in = "empty map"
		case 2:
			m := map[string]interface{}{"a": 1, "b": nil}
			model["a"], model["b"] = 1, nil
			initial = &m
			in = "a=1 b=nil"
		}
		var cur context.Context
		if h.chance(60) {
			cur = &c15Ctx{Context: context.Background(), name: "request"}
		}
		opts := yarql.ResolveOptions{NoMeta: true, Values: initial, Context: cur}
		cancelled := func() bool {
			c, ok := cur.(*c15Ctx)
			return ok && c != nil && c.err != nil
		}
		log := []string{}
		calls, wantErrs := 0, 0
		keys := []string{"a", "b", "c", ""}
		c15Step = func(ctx *yarql.Ctx, i int) int {
			calls++
			for k := h.rng.Intn(5); k > 0; k-- {
				key := keys[h.rng.Intn(len(keys))]
				switch h.rng.Intn(6) {
				case 0, 1:
					var v interface{} = h.rng.Intn(5)
					if h.chance(20) {
						v = nil
					}
					ctx.SetValue(key, v)
					model[key] = v
					log = append(log, fmt.Sprintf("set %q %v", key, v))
				case 2:
					h.eq("GetValue "+key, in+" "+strings.Join(log, ","), ctx.GetValue(key), model[key])
				case 3:
					v, ok := ctx.GetValueOk(key)
					mv, mok := model[key]
					h.eq("GetValueOk "+key, in+" "+strings.Join(log, ","), fmt.Sprint(v, ok), fmt.Sprint(mv, mok))
				case 4:
					if got := ctx.GetContext(); got != cur {
						h.fail("GetContext", in+" "+strings.Join(log, ","), got, cur)
					}
				case 5:
					if h.chance(30) {
						cur = nil
					} else {
						cur = &c15Ctx{Context: context.Background(), name: fmt.Sprint(i, k)}
					}
					ctx.SetContext(cur)
					log = append(log, fmt.Sprint("setcontext ", i, k, cur != nil))
				}
			}
			for _, key := range keys {
				v, ok := ctx.GetValueOk(key)
				mv, mok := model[key]
				h.eq("GetValueOk "+key, in+" "+strings.Join(log, ","), fmt.Sprint(v, ok), fmt.Sprint(mv, mok))
			}
			if got := ctx.GetContext(); got != cur {
				h.fail("GetContext", in+" "+strings.Join(log, ","), got, cur)
			}
			if h.chance(15) {
				if c, ok := cur.(*c15Ctx); ok && c != nil {
					c.err = errors.New("ended " + c.name)
					log = append(log, "cancel")
				}
			}
			if cancelled() {
				wantErrs++
				return -1
			}
			return i
		}
		// the expected response is built while executing: -1 marks a result after cancellation
		q := []string{}
		kinds := []int{}
		nf := 1 + h.rng.Intn(5)
		for i := 0; i < nf; i++ {
			k := h.rng.Intn(3)
			kinds = append(kinds, k)
			switch k {
			case 0:
				q = append(q, fmt.Sprintf("f%d:step(i:%d)", i, i))
			case 1:
				q = append(q, fmt.Sprintf("f%d:sub(i:%d){a:step(i:10) b:step(i:11)}", i, i))
			default:
				q = append(q, fmt.Sprintf("f%d:list(i:%d){a:step(i:20)}", i, i))
			}
		}
		query := "{" + strings.Join(q, " ") + "}"
		base := c15Step
		results := []bool{} // per call: cancelled afterwards
		c15Step = func(ctx *yarql.Ctx, i int) int {
			r := base(ctx, i)
			results = append(results, cancelled())
			return r
		}
		h.run(in+" "+query, func() {
			got, errs := execute(s, query, opts)
			at := 0
			next := func() bool {
				at++
				return at <= len(results) && results[at-1]
			}
			num := func(i int) string {
				if next() {
					return "null"
				}
				return fmt.Sprint(i)
			}
			parts := []string{}
			for i, k := range kinds {
				v := ""
				switch k {
				case 0:
					v = num(i)
				case 1:
					if next() {
						v = "null"
					} else {
						v = `{"a":` + num(10)
						v += `,"b":` + num(11) + `}`
					}
				default:
					if next() {
						v = "null"
					} else {
						v = `[{"a":` + num(20)
						v += `},{"a":` + num(20) + `}]`
					}
				}
				parts = append(parts, fmt.Sprintf(`"f%d":%s`, i, v))
			}
			full := in + " " + query + " " + strings.Join(log, ",")
			h.eq("response", full, got, "{"+strings.Join(parts, ",")+"}")
			h.eq("resolver calls", full, calls, at)
			h.eq("errors", full, len(errs), wantErrs)
			for _, e := range errs {
				if !strings.HasPrefix(e, "ended ") {
					h.fail("error is not the context's error", full, e, "ended ...")
				}
			}
		})
	}
	h.done()
}
