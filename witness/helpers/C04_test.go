package helpers_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"

	"github.com/mjarkk/yarql/helpers"
)

// decoded is the text a string value has to come back as
func decoded(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

func TestVerifC04(t *testing.T) {
	h := newVH(t, "all strings of up to 2 bytes, all code points, random strings of up to 40 bytes; float bit patterns at random and around the format boundaries, both widths")
	str := func(prefix []byte, s string) {
		out := append(make([]byte, 0, len(prefix)+h.rng.Intn(3)), prefix...)
		h.run(fmt.Sprintf("StringToJSON(%q)", s), func() {
			helpers.StringToJSON(s, &out)
			if !bytes.HasPrefix(out, prefix) {
				h.fail("earlier output changed", fmt.Sprintf("%q", s), string(out), string(prefix))
				return
			}
			lit := out[len(prefix):]
			var got string
			if err := json.Unmarshal(lit, &got); err != nil {
				h.fail("not one JSON string literal: "+err.Error(), fmt.Sprintf("%q", s), string(lit), "valid JSON")
				return
			}
			if got != decoded(s) {
				h.fail("decodes to another text", fmt.Sprintf("%q", s), fmt.Sprintf("%q (%s)", got, lit), fmt.Sprintf("%q", decoded(s)))
			}
			if bytes.Contains(lit, []byte("\u2028")) || bytes.Contains(lit, []byte("\u2029")) {
				h.fail("line separator not escaped", fmt.Sprintf("%q", s), string(lit), `\u2028`)
			}
		})
	}
	pre := []byte(`{"a":[1,`)
	for i := 0; i < 256; i++ {
		str(pre, string([]byte{byte(i)}))
		for j := 0; j < 256; j++ {
			str(pre, string([]byte{byte(i), byte(j)}))
		}
	}
	for r := rune(0); r <= 0x10ffff; r += 1 {
		if r > 0x3000 && h.n(1, 0) == 1 && r%61 != 0 {
			continue
		}
		str(pre, "a"+string(r)+"b")
	}
	parts := []string{"", "a", "\"", "\\", "/", "\n", "\r", "\t", "\b", "\f", "\x00", "\x1f", "~", "\x7f", "\x80", "\xc3", "\xc3\xa9", "\u2028", "\u2029", "\ufffd", "\xe2\x80", "\xf0\x9f\x98\x80", "\xf0\x9f\x98", "\xed\xa0\x80", "</script>", "\xff"}
	for i := h.n(20000, 300000); i > 0 && h.more(); i-- {
		s := ""
		for n := h.rng.Intn(9); n >= 0; n-- {
			s += parts[h.rng.Intn(len(parts))]
		}
		str(pre[:h.rng.Intn(len(pre))], s)
	}

	flt := func(f float64, bits int) {
		in := fmt.Sprintf("FloatToJSON(%d, %v)", bits, f)
		out := append([]byte{}, pre...)
		h.run(in, func() {
			helpers.FloatToJSON(bits, f, &out)
			if !bytes.HasPrefix(out, pre) {
				h.fail("earlier output changed", in, string(out), string(pre))
				return
			}
			lit := string(out[len(pre):])
			if math.IsNaN(f) || math.IsInf(f, 0) {
				h.eq("non-finite float", in, lit, "0.0")
				return
			}
			var n json.Number
			if err := json.Unmarshal([]byte(lit), &n); err != nil || lit[0] == '"' {
				h.fail("not a JSON number", in, lit, "a JSON number")
				return
			}
			got, err := strconv.ParseFloat(lit, bits)
			if err != nil || got != f || math.Signbit(got) != math.Signbit(f) {
				h.fail("reads back as another float", in, lit, strconv.FormatFloat(f, 'g', -1, bits))
			}
		})
	}
	both := func(f float64) {
		for _, x := range []float64{f, -f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1))} {
			flt(x, 64)
			flt(float64(float32(x)), 32)
		}
	}
	for _, f := range []float64{0, 1, 0.1, 1e-5, 1e-6, 1e-7, 1.5e-9, 1e-9, 1e-10, 1e20, 1e21, 1e22, 1e9, 1e10, 1.25e-8, 1e100, 1e-100, 1e-300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.NaN(), 123456789, 1<<53 + 1} {
		both(f)
	}
	for e := -50; e < 50; e++ {
		for m := 1; m < 12; m++ {
			f, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", m, e), 64)
			both(f)
		}
	}
	for i := h.n(100000, 3000000); i > 0 && h.more(); i-- {
		flt(math.Float64frombits(h.rng.Uint64()), 64)
		flt(float64(math.Float32frombits(h.rng.Uint32())), 32)
	}
	h.done()
}
