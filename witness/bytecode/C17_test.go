package bytecode_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mjarkk/yarql/bytecode"
)

// lineCol is the oracle: terminators are LF, CR and CRLF (once)
func lineCol(q string, at int) (uint, uint) {
	before := strings.Replace(q[:at], "\r\n", "\n", -1)
	// a position between CR and LF is behind one terminator
	before = strings.Replace(before, "\r", "\n", -1)
	line := uint(1 + strings.Count(before, "\n"))
	col := uint(len(before) - 1 - strings.LastIndex(before, "\n"))
	return line, col
}

func TestVerifC17(t *testing.T) {
	h := newVH(t, "documents of up to 25 tokens with every mix of line terminators between them, broken at every token boundary by an illegal byte or by truncation (seeded)")
	ctx := bytecode.NewParserCtx()
	check := func(q string, at int) {
		h.run(fmt.Sprintf("%q", q), func() {
			ctx.Query = append(ctx.Query[:0], q...)
			ctx.ParseQueryToBytecode(nil)
			in := fmt.Sprintf("%q", q)
			if len(ctx.Errors) != 1 {
				h.fail("one error expected", in, ctx.Errors, fmt.Sprintf("one error at byte %d", at))
				return
			}
			e, ok := ctx.Errors[0].(bytecode.ErrorWLocation)
			if !ok {
				h.fail("error without a location", in, fmt.Sprintf("%#v", ctx.Errors[0]), "ErrorWLocation")
				return
			}
			l, c := lineCol(q, at)
			if e.Line != l || e.Column != c {
				h.fail("wrong location of: "+e.Error(), in, fmt.Sprintf("line %d column %d", e.Line, e.Column), fmt.Sprintf("line %d column %d (byte %d)", l, c, at))
			}
		})
	}
	term := func() string {
		s := h.pick("\n", "\r", "\r\n", " ", "\n\r", "\r\r\n", "\n\n", "\t", "  ", "\r\n\r\n", "#c\n", "#é\r\n", "#x\r", "\n \r")
		if h.chance(30) {
			s += h.pick("\n", "\r", "\r\n", " ")
		}
		return s
	}
	toks := []string{}
	var sel func(d int)
	var val func(d int)
	val = func(d int) {
		switch k := h.rng.Intn(6); {
		case k == 0 && d > 0:
			toks = append(toks, "[")
			val(d - 1)
			toks = append(toks, "]")
		case k == 1 && d > 0:
			toks = append(toks, "{", h.pick("a", "bC", "_x1", "on", "null", "query"), ":")
			val(d - 1)
			toks = append(toks, "}")
		case k == 2:
			toks = append(toks, h.pick("1", "-20", "3.5", "4e2"))
		case k == 3:
			toks = append(toks, h.pick(`"a"`, `"\n"`, "\"\"\"x\r\ny\"\"\"", "\"\"\"\n\rz\n\"\"\"", `"é"`))
		case k == 4:
			toks = append(toks, "$"+h.pick("a", "bC", "_x1", "on", "null", "query"))
		default:
			toks = append(toks, h.pick("true", "null", "FOO"))
		}
	}
	args := func() {
		toks = append(toks, "(")
		for i := 1 + h.rng.Intn(2); i > 0; i-- {
			toks = append(toks, h.pick("a", "bC", "_x1", "on", "null", "query"), ":")
			val(2)
		}
		toks = append(toks, ")")
	}
	sel = func(d int) {
		toks = append(toks, "{")
		for i := 1 + h.rng.Intn(3); i > 0; i-- {
			switch {
			case h.chance(15):
				toks = append(toks, "...", "F")
			case h.chance(15) && d > 0:
				toks = append(toks, "...", "on", "T")
				sel(d - 1)
			default:
				if h.chance(20) {
					toks = append(toks, "al", ":")
				}
				toks = append(toks, "x")
				if h.chance(15) {
					toks = append(toks, "@skip")
					if h.chance(50) {
						args()
					}
				}
				if h.chance(20) {
					args()
				}
				if d > 0 && h.chance(30) {
					sel(d - 1)
				}
			}
		}
		toks = append(toks, "}")
	}
	for i := 0; i < h.n(6000, 120000) && h.more(); i++ {
		toks = toks[:0]
		for j := 1 + h.rng.Intn(2); j > 0; j-- {
			switch h.rng.Intn(3) {
			case 0:
				toks = append(toks, "fragment", "A", "on", "B")
			case 1:
				toks = append(toks, h.pick("query", "mutation"))
				if h.chance(60) {
					toks = append(toks, "op")
				}
				if h.chance(30) {
					toks = append(toks, "(", "$a", ":", h.pick("Int", "[Int]", "[A!]!"))
					if h.chance(50) {
						toks = append(toks, "=")
						val(1)
					}
					toks = append(toks, ")")
				}
			}
			sel(2)
		}
		pos := make([]int, len(toks)+1)
		q := ""
		if h.chance(30) {
			q = term()
		}
		for k, tk := range toks {
			pos[k] = len(q)
			q += tk + term()
		}
		pos[len(toks)] = len(q)
		depth := 0
		for k := range toks {
			cut := pos[k]
			check(q[:cut]+h.pick("^", "?", "%", "\x7f", "\xc3", ";")+h.pick("", "x", "\n", q[cut:]), cut)
			if depth > 0 || k > 0 && toks[k-1] != "}" {
				check(q[:cut], cut)
			}
			switch toks[k] {
			case "{":
				depth++
			case "}":
				depth--
			}
		}
	}
	h.done()
}
