package yarql_test

import "testing"

func TestVerifC05(t *testing.T) {
	h := newVH(t, "random requests over a fixed schema, compared with an independent interpreter")
	defer h.done()
	m := newNSchema(h)
	for i := 0; i < h.n(4000, 40000) && h.more(); i++ {
		if i%20 == 0 {
			m.fill(h, 2)
		}
		modelCase(h, m, nProfile{frags: 20, dirs: 20, errs: 20, args: 10, vars: 10, aliases: 60, ops: 3, iface: 10}, "the response")
	}
}
