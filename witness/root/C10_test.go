package yarql_test

import "testing"

func TestVerifC10(t *testing.T) {
	h := newVH(t, "random requests over a fixed schema, compared with an independent interpreter")
	defer h.done()
	m := newNSchema(h)
	for i := 0; i < h.n(4000, 40000) && h.more(); i++ {
		if i%20 == 0 {
			m.fill(h, 2)
		}
		modelCase(h, m, nProfile{dirs: 45, frags: 30, aliases: 50, vars: 20, iface: 10}, "directives")
	}
}
