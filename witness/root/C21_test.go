package yarql_test

import (
	"fmt"
	"testing"
	"time"
)

type c21O struct {
	T  time.Time    `gq:"t"`
	P  *time.Time   `gq:"p"`
	L  []time.Time  `gq:"l"`
	LP []*time.Time `gq:"lp"`
}

type c21I struct {
	T time.Time   `gq:"t"`
	P *time.Time  `gq:"p"`
	L []time.Time `gq:"l"`
}

var c21Got []time.Time
var c21Out time.Time

type c21Q struct{ O *c21O }

func (c21Q) ResolveNow() time.Time { return c21Out }
func (c21Q) ResolveIn(a struct {
	T time.Time   `gq:"t"`
	P *time.Time  `gq:"p"`
	L []time.Time `gq:"l"`
	O *c21I       `gq:"o"`
}) int {
	if !a.T.IsZero() {
		c21Got = append(c21Got, a.T)
	}
	if a.P != nil {
		c21Got = append(c21Got, *a.P)
	}
	c21Got = append(c21Got, a.L...)
	if a.O != nil {
		if !a.O.T.IsZero() {
			c21Got = append(c21Got, a.O.T)
		}
		if a.O.P != nil {
			c21Got = append(c21Got, *a.O.P)
		}
		c21Got = append(c21Got, a.O.L...)
	}
	return 1
}

// c21Form reads YYYY-MM-DDThh:mm:ss.mmmZ without the time package's parser
func c21Form(s string) (time.Time, bool) {
	const form = "dddd-dd-ddTdd:dd:dd.dddZ"
	if len(s) != len(form) {
		return time.Time{}, false
	}
	n := []int{}
	v, in := 0, false
	for i := 0; i < len(form); i++ {
		if form[i] == 'd' {
			if s[i] < '0' || s[i] > '9' {
				return time.Time{}, false
			}
			v, in = v*10+int(s[i]-'0'), true
			continue
		}
		if s[i] != form[i] {
			return time.Time{}, false
		}
		if in {
			n = append(n, v)
			v, in = 0, false
		}
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if n[0]%4 == 0 && (n[0]%100 != 0 || n[0]%400 == 0) {
		days[1] = 29
	}
	if n[1] < 1 || n[1] > 12 || n[2] < 1 || n[2] > days[n[1]-1] || n[3] > 23 || n[4] > 59 || n[5] > 59 {
		return time.Time{}, false
	}
	return time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], n[6]*1000000, time.UTC), true
}

func c21Text(t time.Time) string {
	t = t.UTC()
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/1000000)
}

func TestVerifC21(t *testing.T) {
	h := newVH(t, "times of years 1 to 9998 in zones of every offset, as fields, pointers, list elements and results; input texts of the form with single-byte changes, insertions and deletions, as literals and variables")
	q := &c21O{}
	s := mustSchema(h, "times", c21Q{O: q}, vM{}, nil)
	if s == nil {
		h.done()
		return
	}
	random := func() time.Time {
		off := h.rng.Intn(28*3600) - 14*3600
		if h.chance(50) {
			off = off / 1800 * 1800
		}
		z := time.FixedZone("z", off)
		y := 1 + h.rng.Intn(9998)
		if h.chance(60) {
			y = 1960 + h.rng.Intn(100)
		}
		ns := h.rng.Intn(1000000000)
		switch h.rng.Intn(4) {
		case 0:
			ns = 0
		case 1:
			ns = h.rng.Intn(1000) * 1000000
		case 2:
			ns = []int{1, 999999, 1000000, 999999999, 999000000, 10000000, 120000000}[h.rng.Intn(7)]
		}
		d := time.Date(y, time.Month(1+h.rng.Intn(12)), 1+h.rng.Intn(31), h.rng.Intn(24), h.rng.Intn(60), h.rng.Intn(60), ns, z)
		if h.chance(10) {
			d = time.Date(y, 12, 31, 23, 59, 59, 999999999, z)
		}
		if u := d.UTC().Year(); u < 0 || u > 9999 {
			return time.Unix(0, 0).In(z)
		}
		return d
	}
	for i := 0; h.more() && i < h.n(3000, 40000); i++ {
		a, b, c := random(), random(), random()
		q.T, q.P, q.L, q.LP, c21Out = a, &b, []time.Time{b, c}, []*time.Time{&c, nil, &a}, c
		in := fmt.Sprintf("times %s %s %s", a, b, c)
		h.run(in, func() {
			ta, tb, tc := c21Text(a), c21Text(b), c21Text(c)
			got, errs := data(s, "{o{t p l lp} now}", "")
			h.eq("errors", in, len(errs), 0)
			h.eq("response", in, got, fmt.Sprintf(`{"o":{"t":"%s","p":"%s","l":["%s","%s"],"lp":["%s",null,"%s"]},"now":"%s"}`, ta, tb, tb, tc, tc, ta, tc))
		})
	}
	forms := []struct{ q, v string }{
		{"{in(t:%s)}", ""}, {"{in(p:%s)}", ""}, {"{in(l:[%s])}", ""}, {"{in(o:{t:%s})}", ""}, {"{in(o:{p:%s})}", ""}, {"{in(o:{l:[%s]})}", ""},
		{"query($x:Time!){in(t:$x)}", `{"x":%s}`}, {"query($x:Time){in(p:$x)}", `{"x":%s}`}, {"query($x:[Time!]){in(l:$x)}", `{"x":[%s]}`},
		{"query($x:String!){in(t:$x)}", `{"x":%s}`}, {"query($x:Time!=%s){in(t:$x)}", ""}, {"query($x:c21I!){in(o:$x)}", `{"x":{"t":%s}}`},
	}
	try := func(text string) {
		f := forms[h.rng.Intn(len(forms))]
		qq, vv := f.q, f.v
		if vv == "" {
			qq = fmt.Sprintf(qq, `"`+text+`"`)
		} else {
			vv = fmt.Sprintf(vv, `"`+text+`"`)
		}
		in := qq + " " + vv
		h.run(in, func() {
			c21Got = nil
			_, errs := data(s, qq, vv)
			want, ok := c21Form(text)
			if ok {
				if len(errs) > 0 {
					h.fail("a time of the form is rejected", in, errs, want)
					return
				}
				if want.IsZero() && len(c21Got) == 0 {
					return
				}
				h.eq("times stored", in, len(c21Got), 1)
				if len(c21Got) == 1 && !c21Got[0].Equal(want) {
					h.fail("another instant is stored", in, c21Got[0], want)
				}
				return
			}
			if len(errs) == 0 || len(c21Got) > 0 {
				h.fail("a text that is not of the form is accepted", in, c21Got, "an error")
			}
		})
	}
	for _, x := range []string{"", "2021-01-02", "2021-01-02T5:04:05.000Z", "2021-01-02T05:04:05,000Z", "2021-01-02T05:04:05Z", "2021-01-02T05:04:05.0Z", "2021-01-02T05:04:05.0000Z", "2021-01-02T05:04:05.000+01:00", "2021-01-02T05:04:05.000", "2021-01-02T05:04:05.000z", "2021-01-02t05:04:05.000Z", "2021-02-29T05:04:05.000Z", "2020-02-29T05:04:05.000Z", "2021-13-01T05:04:05.000Z", "2021-00-01T05:04:05.000Z", "2021-04-31T05:04:05.000Z", "2021-01-02T24:00:00.000Z", "2021-01-02T23:60:00.000Z", "2021-01-02T23:59:60.000Z", " 2021-01-02T05:04:05.000Z", "2021-01-02T05:04:05.000Z ", "+2021-01-02T05:04:05.000Z", "-001-01-02T05:04:05.000Z", "0000-01-01T00:00:00.000Z", "9999-12-31T23:59:59.999Z", "12021-01-02T05:04:05.000Z"} {
		for i := 0; i < 20; i++ {
			try(x)
		}
	}
	const al = "0123456789TZtz-+:., "
	for i := 0; h.more() && i < h.n(6000, 80000); i++ {
		b := []byte(c21Text(random()))
		for k := h.rng.Intn(3); k > 0; k-- {
			p := h.rng.Intn(len(b))
			c := al[h.rng.Intn(len(al))]
			switch h.rng.Intn(6) {
			case 0:
				b = append(b[:p], b[p+1:]...)
			case 1:
				b = append(b[:p], append([]byte{c}, b[p:]...)...)
			default:
				b[p] = c
			}
		}
		try(string(b))
	}
	h.done()
}
