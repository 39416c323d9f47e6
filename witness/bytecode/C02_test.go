package bytecode_test

import (
	"fmt"
	"hash/fnv"
	"strings"
	"testing"

	"github.com/mjarkk/yarql/bytecode"
)

// progWalk reads a compiled program by its layout and reports the first place that is not of the form
type progWalk struct {
	b     []byte
	i     int
	depth int
	frags []int
	ops   []string
	opsAt []int
	bad   string
}

func (p *progWalk) err(f string, a ...interface{}) bool {
	if p.bad == "" {
		p.bad = fmt.Sprintf("at byte %d: ", p.i) + fmt.Sprintf(f, a...)
	}
	return false
}
func (p *progWalk) at(k int) int {
	if k < 0 || k >= len(p.b) {
		return -1
	}
	return int(p.b[k])
}
func (p *progWalk) u32(k int) int {
	if k < 0 || k+4 > len(p.b) {
		return -1
	}
	return int(p.b[k]) | int(p.b[k+1])<<8 | int(p.b[k+2])<<16 | int(p.b[k+3])<<24
}
func (p *progWalk) ins(a byte) bool {
	if p.at(p.i) != 0 || p.at(p.i+1) != int(a) {
		return p.err("expected instruction %q, got %v %v", a, p.at(p.i), p.at(p.i+1))
	}
	p.i += 2
	return true
}
func (p *progWalk) is(a byte) bool { return p.at(p.i) == 0 && p.at(p.i+1) == int(a) }
func nameByte(c int, first bool) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || !first && c >= '0' && c <= '9'
}

// nameTo reads a name that is ended by a byte 0 (not consumed)
func (p *progWalk) nameTo(may0 bool) bool {
	s := p.i
	for nameByte(p.at(p.i), p.i == s) {
		p.i++
	}
	if p.at(p.i) != 0 || (p.i == s && !may0) {
		return p.err("bad name %q", p.b[s:p.i])
	}
	return true
}
func (p *progWalk) nameLen(n int) bool {
	for k := 0; k < n; k++ {
		if !nameByte(p.at(p.i+k), k == 0) {
			return p.err("bad name byte %v", p.at(p.i+k))
		}
	}
	p.i += n
	return true
}
func (p *progWalk) typ() bool {
	for p.at(p.i) == 'l' || p.at(p.i) == 'L' {
		p.i++
	}
	if p.at(p.i) != 'n' && p.at(p.i) != 'N' {
		return p.err("bad type kind %v", p.at(p.i))
	}
	p.i++
	return p.nameTo(false)
}
func (p *progWalk) value() bool {
	if !p.ins('v') {
		return false
	}
	k := p.at(p.i)
	l := p.u32(p.i + 1)
	p.i += 5
	s := p.i
	switch k {
	case '$', 'e':
		if l < 1 || !p.nameLen(l) {
			return p.err("bad name value, length %d", l)
		}
	case 'b':
		if l != 1 || (p.at(s) != '0' && p.at(s) != '1') {
			return p.err("bad boolean")
		}
		p.i++
	case 'n':
		if l != 0 {
			return p.err("null with a payload of %d", l)
		}
	case 'i', 'f', 's':
		p.i += l
	case 'l':
		for !p.is('e') {
			if !p.value() {
				return false
			}
		}
		p.i += 2
	case 'o':
		for !p.is('e') {
			if !p.ins('u') || !p.nameTo(false) || !p.value() {
				return false
			}
		}
		p.i += 2
	default:
		return p.err("unknown value kind %v", k)
	}
	if p.i-s != l || p.i > len(p.b) {
		return p.err("value of kind %q: stored length %d, real length %d", k, l, p.i-s)
	}
	return true
}
func (p *progWalk) directives(n int) bool {
	for ; n > 0; n-- {
		if !p.ins('d') {
			return false
		}
		f := p.at(p.i)
		p.i++
		if (f != 't' && f != 'f') || !p.nameTo(false) {
			return p.err("bad directive")
		}
		if f == 't' {
			if p.at(p.i+2) != 'o' || !p.value() {
				return p.err("bad directive arguments")
			}
		}
	}
	if p.is('d') {
		return p.err("more directives than counted")
	}
	return true
}
func (p *progWalk) selection() bool {
	for {
		switch {
		case p.is('f'):
			p.i += 2
			d, l, k := p.at(p.i), p.u32(p.i+1), p.u32(p.i+5)
			p.i += 9
			start := p.i
			al := p.at(p.i)
			p.i++
			a := p.i
			if al < 1 || !p.nameLen(al) {
				return p.err("bad alias")
			}
			name := p.b[a:p.i]
			nl := p.at(p.i)
			p.i++
			if nl < 0 {
				return p.err("no name length")
			}
			if nl > 0 {
				if !p.nameLen(nl) {
					return false
				}
				name = p.b[p.i-nl : p.i]
			}
			hash := fnv.New32()
			hash.Write(name)
			if int(hash.Sum32()) != k {
				return p.err("hash of %q is %d, stored %d", name, hash.Sum32(), k)
			}
			if !p.directives(d) {
				return false
			}
			if p.is('v') && (p.at(p.i+2) != 'o' || !p.value()) {
				return p.err("bad arguments")
			}
			if !p.selection() || !p.ins('e') {
				return false
			}
			if p.i-start != l {
				return p.err("field %q: stored length %d, real length %d", name, l, p.i-start)
			}
		case p.is('s'):
			p.i += 2
			f, d, l := p.at(p.i), p.at(p.i+1), p.u32(p.i+2)
			p.i += 6
			start := p.i
			if (f != 't' && f != 'f') || !p.nameTo(false) || !p.directives(d) {
				return p.err("bad spread")
			}
			if f == 't' && (!p.selection() || !p.ins('e')) {
				return false
			}
			if p.i-start != l {
				return p.err("spread: stored length %d, real length %d", l, p.i-start)
			}
		default:
			return true
		}
	}
}
func (p *progWalk) program() bool {
	for p.i < len(p.b) {
		at := p.i
		if p.is('F') {
			p.frags = append(p.frags, p.i+1)
			p.i += 2
			if !p.nameTo(false) {
				return false
			}
			p.i++
			if !p.nameTo(false) || !p.selection() || !p.ins('e') {
				return p.err("bad fragment")
			}
			continue
		}
		if !p.ins('o') {
			return false
		}
		k, f, d := p.at(p.i), p.at(p.i+1), p.at(p.i+2)
		if (k != 'q' && k != 'm' && k != 's') || (f != 't' && f != 'f') {
			return p.err("bad operation header")
		}
		p.i += 3
		n := p.i
		if !p.nameTo(true) {
			return false
		}
		p.ops = append(p.ops, string(p.b[n:p.i]))
		p.opsAt = append(p.opsAt, at)
		if f == 't' {
			l := p.u32(p.i + 1)
			p.i += 5
			start := p.i
			if !p.ins('A') {
				return false
			}
			for !p.is('e') {
				if !p.ins('a') {
					return false
				}
				as, al := p.i-1, p.u32(p.i)
				p.i += 4
				if !p.nameTo(false) {
					return false
				}
				p.i++
				if !p.typ() {
					return false
				}
				p.i++
				h := p.at(p.i)
				p.i++
				if h != 't' && h != 'f' || h == 't' && !p.value() {
					return p.err("bad default")
				}
				if p.i-as != al {
					return p.err("operation argument: stored length %d, real length %d", al, p.i-as)
				}
			}
			p.i += 2
			if p.i-start != l {
				return p.err("operation arguments: stored length %d, real length %d", l, p.i-start)
			}
		}
		if !p.directives(d) || !p.selection() || !p.ins('e') {
			return false
		}
	}
	return true
}

func TestVerifC02(t *testing.T) {
	h := newVH(t, "generated documents (seeded) with several operations, fragments, aliases, directives, arguments, nested values, names up to 254 and strings up to 70000 bytes; requested names present and absent; fresh and used parsers, long texts through the cache")
	ctx := bytecode.NewParserCtx()
	compiled := 0
	check := func(q string, target *string) {
		h.run(q, func() {
			c := ctx
			if h.chance(5) {
				c = bytecode.NewParserCtx()
			}
			c.Query = append(c.Query[:0], q...)
			c.ParseQueryToBytecode(target)
			if len(c.Errors) > 0 {
				return
			}
			compiled++
			p := &progWalk{b: c.Res}
			if !p.program() || p.i != len(c.Res) {
				p.err("trailing bytes")
				h.fail("the program is not well nested", q, p.bad+fmt.Sprintf(" in %q", c.Res), "a program of the documented layout")
			}
			h.eq("fragment locations", q, fmt.Sprint(c.FragmentLocations), fmt.Sprint(append([]int{}, p.frags...)))
			want := -1
			for i, n := range p.ops {
				if target == nil || *target == "" || n == *target {
					want = p.opsAt[i]
				}
			}
			h.eq("entry point", q, c.TargetIdx, want)
		})
	}
	doc := func(d int) string {
		if h.chance(70) {
			return h.document(d)
		}
		return h.query()
	}
	for i := 0; i < h.n(12000, 150000) && h.more(); i++ {
		q := doc(1 + i%5)
		if h.chance(10) {
			q = h.mutate(q)
		}
		var target *string
		if h.chance(30) {
			n := h.name()
			if k := strings.Index(q, "query "); k >= 0 && h.chance(60) {
				f := strings.FieldsFunc(q[k+6:], func(r rune) bool { return !nameByte(int(r), false) })
				if len(f) > 0 {
					n = f[0]
				}
			}
			target = &n
		}
		check(q, target)
		if h.chance(3) {
			long := q + strings.Repeat(" ", 320)
			check(long, target)
			check(long, target)
		}
	}
	// sizes around the byte boundaries of lengths and counts
	for _, n := range []int{1, 2, 100, 127, 128, 200, 240, 250, 253, 254, 255, 256, 257, 300, 1000, 65500, 65530, 65536, 66000} {
		r := func(s string) string { return strings.Repeat(s, n) }
		for _, q := range []string{
			`{a(a:"` + r("x") + `")}`, `{a(a:` + r("1") + `)}`, `{a` + r("a") + `}`, `{a:b` + r("a") + `}`, `{a` + r("b") + `:c}`, `{a{` + r("b ") + `}}`, `{a(` + r("a:1 ") + `)}`, `{a(a:[` + r("1 ") + `])}`,
			`query a(` + r("$a:A=1 ") + `){a}`, `query a($a:A="` + r("x") + `"){a}`, `{a` + r(" @b") + `}`, `{...a` + r(" @b") + `}`, `{...on a` + r(" @b") + `{a}}`, `query a` + r(" @b(a:1)") + `{a}`, `{...on a{` + r("c ") + `}}`,
			`fragment a on b{` + r("c ") + `}`, `{a(a:{` + r("a:{} ") + `})}`, `{...a` + r("b") + `}`, `{a @b(a:"` + r("x") + `") c}`,
		} {
			if !h.more() {
				break
			}
			check(q, nil)
		}
	}
	if compiled < 100 {
		h.fail("too few texts compiled", "", compiled, "at least 100")
	}
	h.done()
}
