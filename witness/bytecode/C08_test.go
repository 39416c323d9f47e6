package bytecode_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mjarkk/yarql/bytecode"
)

type compiledQ struct {
	res   string
	frags string
	idx   int
	errs  int
}

func snapshot(ctx *bytecode.ParserCtx) compiledQ {
	return compiledQ{string(ctx.Res), fmt.Sprint(append([]int{}, ctx.FragmentLocations...)), ctx.TargetIdx, len(ctx.Errors)}
}

// TestVerifC08 replays histories of queries and targets on one parser with a cache and compares every answer with a
// parser that has never seen another query
func TestVerifC08(t *testing.T) {
	h := newVH(t, "random histories of 200 compilations over pools of 8-40 texts (300-3000 bytes, several operations and fragments, same-length variants, broken texts) and 4 targets, buffers overwritten between calls (seeded)")
	strp := func(s string) *string { return &s }
	for round := 0; round < h.n(60, 1200) && h.more(); round++ {
		ctx := bytecode.NewParserCtx()
		if h.chance(50) {
			ctx.CacheableQueryMinLen = []int{0, 10, 300, 299, 1}[h.rng.Intn(5)]
		}
		var pool []string
		for n := 8 + h.rng.Intn(32); len(pool) < n; {
			var q string
			switch h.rng.Intn(6) {
			case 0:
				q = fmt.Sprintf("query A%d{a} query B{b c:d} fragment F%d on T{x} ", h.rng.Intn(3), h.rng.Intn(3))
			case 1:
				q = "fragment F on Q{f} query B{...F} query A($a: Int = 1){z(x: $a)} fragment G on Q{g h}"
			case 2:
				q = h.document(3)
			case 3:
				q = h.mutate(h.document(2))
			case 4:
				q = "{a(x:\"" + strings.Repeat("y", h.rng.Intn(40)) + "\")}"
			case 5:
				if len(pool) > 0 { // same length, another byte
					b := []byte(pool[h.rng.Intn(len(pool))])
					i := h.rng.Intn(len(b))
					b[i] = "abxyAB{} "[h.rng.Intn(9)]
					q = string(b)
				} else {
					q = "{q}"
				}
			}
			if h.chance(80) {
				for len(q) <= ctx.CacheableQueryMinLen && len(q) < 320 {
					q += h.pick(" ", "#pad\n", "\n\n\n\n", "#"+strings.Repeat("c", 290)+"\n")
				}
			}
			pool = append(pool, q)
		}
		targets := []*string{nil, strp("A"), strp("B"), strp(""), strp("A1"), strp("b")}
		buf := make([]byte, 0, 8192)
		hist := []string{}
		for step := 0; step < 200 && h.more(); step++ {
			q := pool[h.rng.Intn(len(pool))]
			tg := targets[h.rng.Intn(len(targets))]
			var arg *string
			var cell string
			tn := "none"
			if tg != nil {
				cell = *tg
				arg = &cell
				tn = fmt.Sprintf("%q", cell)
			}
			hist = append(hist, fmt.Sprintf("%q/%s", q, tn))
			in := "history of query/target: ..." + strings.Join(hist[max0(len(hist)-12):], " ; ")
			h.run(in, func() {
				if h.chance(50) {
					buf = append(buf[:0], q...)
					ctx.Query = buf
				} else {
					ctx.Query = append(ctx.Query[:0], q...)
				}
				ctx.ParseQueryToBytecode(arg)
				got := snapshot(ctx)
				fresh := bytecode.NewParserCtx()
				fresh.CacheableQueryMinLen = 1 << 30
				fresh.Query = []byte(q)
				fresh.ParseQueryToBytecode(tg)
				want := snapshot(fresh)
				if got != want {
					h.fail("the answer differs from a first compilation", in, fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", want))
					return
				}
				// everything the caller owns may be overwritten
				if h.chance(60) {
					for i := range ctx.Res {
						ctx.Res[i] = 'X'
					}
					for i := range ctx.FragmentLocations {
						ctx.FragmentLocations[i] = 7777
					}
				}
				if h.chance(60) {
					for i := range ctx.Query {
						ctx.Query[i] = 'Z'
					}
				}
				cell = "zz"
			})
		}
	}
	h.done()
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}
