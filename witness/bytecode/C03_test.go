package bytecode_test

import (
	"encoding/binary"
	"hash/fnv"
	"strings"
	"testing"

	"github.com/mjarkk/yarql/bytecode"
)

func u32le(n int) string {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, uint32(n))
	return string(b)
}

// litValue is a value as written and as it has to be compiled
type litValue struct{ src, code string }

func compiledValue(kind byte, payload string) string {
	return "\x00v" + string([]byte{kind}) + u32le(len(payload)) + payload
}

func litNumber(h *vh) litValue {
	s := h.pick("", "", "", "-", "+")
	digits := func(min int) string {
		d := ""
		n := min + h.rng.Intn(5)
		if h.chance(3) {
			n = 20 + h.rng.Intn(300)
		}
		for i := 0; i < n; i++ {
			d += string("0123456789"[h.rng.Intn(10)])
			if h.chance(8) {
				d += "_"
			}
		}
		return d
	}
	kind := byte('i')
	switch h.rng.Intn(6) {
	case 0:
		s, kind = s+digits(1)+"."+digits(0), 'f'
	case 1:
		s, kind = s+digits(1)+h.pick("e", "E")+h.pick("", "+", "-")+digits(1), 'f'
	case 2:
		s, kind = s+digits(1)+"."+digits(1)+h.pick("e", "E")+h.pick("", "+", "-")+digits(1), 'f'
	case 3:
		s, kind = s+"."+digits(1), 'f'
	default:
		s += digits(1)
	}
	out := strings.Replace(strings.Replace(strings.Replace(s, "_", "", -1), "+", "", -1), "e", "E", -1)
	return litValue{s, compiledValue(kind, out)}
}

// litName is a name of n bytes
func litName(h *vh, n int) string {
	b := []byte{nameFirst[h.rng.Intn(len(nameFirst))]}
	for len(b) < n {
		b = append(b, nameRest[h.rng.Intn(len(nameRest))])
	}
	return string(b)
}
func litAnyName(h *vh) string {
	switch {
	case h.chance(25):
		return h.pick("true", "false", "null", "t", "f", "n") + h.pick("", "_", "A", "9", "z", "true", "null", "0")
	case h.chance(10):
		return litName(h, 250+h.rng.Intn(5))
	case h.chance(10):
		return h.pick("on", "query", "fragment", "mutation", "subscription", "onX", "queryX", "_", "__", "e1", "E", "_1")
	}
	return litName(h, 1+h.rng.Intn(12))
}

func litAny(h *vh, depth int) litValue {
	switch k := h.rng.Intn(10); {
	case k <= 3:
		return litNumber(h)
	case k == 4:
		n := litAnyName(h)
		return litValue{"$" + n, compiledValue('$', n)}
	case k <= 6:
		n := litAnyName(h)
		switch n {
		case "true":
			return litValue{n, compiledValue('b', "1")}
		case "false":
			return litValue{n, compiledValue('b', "0")}
		case "null":
			return litValue{n, compiledValue('n', "")}
		}
		return litValue{n, compiledValue('e', n)}
	case k == 7 && depth > 0:
		s, c := "[", ""
		for i := h.rng.Intn(4); i > 0; i-- {
			v := litAny(h, depth-1)
			s, c = s+litEnd(h, v.src), c+v.code
		}
		return litValue{s + "]", compiledValue('l', c+"\x00e")}
	case k == 8 && depth > 0:
		s, c := "{", ""
		for i := h.rng.Intn(4); i > 0; i-- {
			v, n := litAny(h, depth-1), litAnyName(h)
			s, c = s+n+h.pick(":", " : ", ":\n")+litEnd(h, v.src), c+"\x00u"+n+v.code
		}
		return litValue{s + "}", compiledValue('o', c+"\x00e")}
	}
	return litNumber(h)
}

// litEnd is the text followed by something that ends a literal
func litEnd(h *vh, s string) string {
	return s + h.pick(" ", ",", ", ", "\n", "\r\n", "\t", "#x\n", " ,", "\r")
}

func TestVerifC03(t *testing.T) {
	h := newVH(t, "fields alias:name(arg: value) with generated (seeded) names up to 254 bytes and nested values of numbers, enums, variables, true/false/null and words that start like them, each literal followed by every kind of terminator, compared byte for byte with the program they have to compile to; names of 255 and more bytes and characters that are no name or number refused")
	ctx := bytecode.NewParserCtx()
	compile := func(q string) (string, bool) {
		ctx.Query = append(ctx.Query[:0], q...)
		ctx.ParseQueryToBytecode(nil)
		return string(ctx.Res), len(ctx.Errors) == 0
	}
	for i := 0; i < h.n(15000, 200000) && h.more(); i++ {
		alias, name, arg, v := litAnyName(h), litAnyName(h), litAnyName(h), litAny(h, 3)
		q := "{" + h.pick("", " ", "\n") + alias + h.pick(":", " :", ": ") + name + h.pick("(", " (", "( ") + arg + h.pick(":", " : ", ":") + v.src + h.pick(")", " )", ",)", "\n)", "#\n)") + h.pick("}", " }", ",}")
		h.run(q, func() {
			got, ok := compile(q)
			if !ok {
				h.fail("a valid query is refused", q, ctx.Errors, "compiled")
				return
			}
			hash := fnv.New32()
			hash.Write([]byte(name))
			body := string([]byte{byte(len(alias))}) + alias + string([]byte{byte(len(name))}) + name + compiledValue('o', "\x00u"+arg+v.code+"\x00e") + "\x00e"
			want := "\x00oqf\x00" + "\x00f\x00" + u32le(len(body)) + u32le(int(hash.Sum32())) + body + "\x00e"
			h.eq("compiled program", q, strings.Replace(got, u32le(int(hash.Sum32())), "HASH", 1), strings.Replace(want, u32le(int(hash.Sum32())), "HASH", 1))
		})
	}
	// what is no name or no number is refused
	for i := 0; i < h.n(4000, 40000) && h.more(); i++ {
		var q string
		long := litName(h, 255+h.rng.Intn(h.pick2(3, 300)))
		odd := h.pick("é", "\xff", "-", "+", "*", "'", ";", "%", "1a", "9", "\x01", "\x7f", "`", "[", "^", "/")
		switch h.rng.Intn(9) {
		case 0:
			q = "{" + long + "}"
		case 1:
			q = "{a:" + long + "}"
		case 2:
			q = "{a(" + long + ":1)}"
		case 3:
			q = "{a(b:" + h.pick("", "$") + long + ")}"
		case 4:
			q = "{" + odd + litName(h, 3) + "}"
		case 5:
			q = "{a(" + odd + ":1)}"
		case 6:
			q = "{a(b:1" + h.pick("a", "x", "é", "*", "%", "1.2.3x", ".5.", "e5e", "e5.", "e1x", "-", "+", "/", "f", "L", "n") + ")}"
		case 7:
			q = "query " + long + "{a}"
		default:
			q = "{... on " + long + "{a}}"
		}
		h.run(q, func() {
			if got, ok := compile(q); ok {
				h.fail("accepted", q, got, "an error")
			}
		})
	}
	h.done()
}

func (h *vh) pick2(a, b int) int {
	if h.chance(50) {
		return a
	}
	return b
}
