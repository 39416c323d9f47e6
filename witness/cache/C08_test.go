package cache_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/mjarkk/yarql/bytecode/cache"
)

func TestVerifC08(t *testing.T) {
	h := newVH(t, "random histories of up to 3000 SetEntry and GetEntry calls over 1-300 lengths, texts, targets and values; caller buffers overwritten after every call (seeded)")
	type val struct {
		b []byte
		f []int
		i int
	}
	for round := 0; round < h.n(60, 800) && h.more(); round++ {
		c := cache.BytecodeCache{}
		model := map[string]val{}
		key := func(q string, t *string) string {
			if t == nil {
				return q + "|nil"
			}
			return q + "|=" + *t
		}
		lens := 1 + h.rng.Intn(3)
		if h.chance(50) {
			lens = 90 + h.rng.Intn(200)
		}
		variants := 1 + h.rng.Intn(40)
		steps := 200 + h.rng.Intn(h.n(1500, 3000))
		for s := 0; s < steps && h.more(); s++ {
			q := fmt.Sprintf("%0*d", 3+h.rng.Intn(lens), h.rng.Intn(variants))
			var target *string
			if h.chance(60) {
				x := h.pick("", "A", "B", "a", "AB")
				target = &x
			}
			in := fmt.Sprintf("round %d step %d text %q target %v", round, s, q, key("", target))
			h.run(in, func() {
				qb := []byte(q)
				res, frags, idx := c.GetEntry(qb, target)
				k := key(q, target)
				if res != nil {
					w, ok := model[k]
					if !ok {
						h.fail("answered a text and target that was never stored", in, fmt.Sprint(res, frags, idx), "no answer")
						return
					}
					if string(res) != string(w.b) || fmt.Sprint(frags) != fmt.Sprint(w.f) || idx != w.i {
						h.fail("a wrong answer", in, fmt.Sprint(res, frags, idx), fmt.Sprint(w.b, w.f, w.i))
						return
					}
				} else {
					w := val{make([]byte, h.rng.Intn(20)), nil, h.rng.Intn(100) - 1}
					for i := range w.b {
						w.b[i] = byte(h.rng.Intn(256))
					}
					for i := h.rng.Intn(3); i > 0; i-- {
						w.f = append(w.f, h.rng.Intn(1000))
					}
					model[k] = w
					b, f := append([]byte{}, w.b...), append([]int{}, w.f...)
					c.SetEntry(qb, b, target, w.i, f)
					r2, f2, i2 := c.GetEntry([]byte(q), target)
					if r2 == nil || string(r2) != string(w.b) || fmt.Sprint(f2) != fmt.Sprint(w.f) || i2 != w.i {
						h.fail("a stored program is not found", in, fmt.Sprint(r2, f2, i2), fmt.Sprint(w))
						return
					}
					for i := range b {
						b[i] = 1
					}
					for i := range f {
						f[i] = -5
					}
					for i := range qb {
						qb[i] = '!'
					}
					if target != nil {
						*target = "changed"
					}
				}
				if len(c) > 100 {
					h.fail("more than 100 text lengths are kept", in, len(c), "at most 100")
				}
				for n := range c {
					if l := reflect.ValueOf(c[n]).Len(); l > 20 {
						h.fail("more than 20 texts of one length are kept", in, l, "at most 20")
					}
				}
			})
		}
	}
	h.done()
}
