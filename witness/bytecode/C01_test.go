package bytecode_test

import (
	"strings"
	"testing"

	"github.com/mjarkk/yarql/bytecode"
)

func TestVerifC01(t *testing.T) {
	h := newVH(t, "generated, mutated and random query texts (seeded), every prefix of them, deep nestings up to 300000 levels of every bracket kind")
	ctx := bytecode.NewParserCtx()
	parse := func(q string, target *string) {
		h.run(q, func() {
			c := ctx
			if h.chance(10) {
				c = bytecode.NewParserCtx()
			}
			c.Query = append(c.Query[:0], q...)
			c.ParseQueryToBytecode(target)
			if len(c.Errors) == 0 && target == nil && c.TargetIdx == -1 && strings.HasPrefix(q, "{") {
				h.fail("neither an error nor a program", q, c.Res, "")
			}
		})
	}
	empty := ""
	for i := 0; i < h.n(30000, 400000) && h.more(); i++ {
		q := h.query()
		var target *string
		if h.chance(20) {
			n := h.name()
			target = &n
			if h.chance(30) {
				target = &empty
			}
		}
		parse(q, target)
		if i%40 == 0 {
			for k := 0; k < len(q) && k < 600; k++ {
				parse(q[:k], target)
			}
		}
		if h.chance(3) && len(q) > 0 {
			// long queries go through the cache
			long := q + strings.Repeat(" ", 320)
			parse(long, target)
			parse(long, target)
		}
	}
	for _, unit := range []string{"{a", "{a(a:[", "{a(a:{a:", "{...on A", "query($a:[", "{a(a:[{a:", "fragment a on b{a", "{a@a(a:[", "query($a:A=[", "{"} {
		for _, n := range []int{300, 70000, 300000} {
			i := strings.IndexAny(unit, "[{")
			u := unit
			head := ""
			switch unit {
			case "{a(a:[":
				head, u = "{a(a:", "["
			case "{a(a:{a:":
				head, u = "{a(a:", "{a:"
			case "query($a:[":
				head, u = "query($a:", "["
			case "{a(a:[{a:":
				head, u = "{a(a:", "[{a:"
			case "fragment a on b{a":
				head, u = "fragment a on b", "{a"
			case "{a@a(a:[":
				head, u = "{a@a(a:", "["
			case "query($a:A=[":
				head, u = "query($a:A=", "["
			}
			_ = i
			parse(head+strings.Repeat(u, n), nil)
		}
	}
	h.done()
}
