package yarql_test

import "testing"

func TestVerifC09(t *testing.T) {
	h := newVH(t, "random requests over a fixed schema, compared with an independent interpreter")
	defer h.done()
	m := newNSchema(h)
	for i := 0; i < h.n(4000, 40000) && h.more(); i++ {
		if i%20 == 0 {
			m.fill(h, 2)
		}
		modelCase(h, m, nProfile{errs: 40, aliases: 50, iface: 15, width: 5, depth: 4}, "errors and paths")
	}
}
