package yarql_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

// c07Node refers to itself in every way a type can
type c07Node struct {
	V    int                      `gq:"v"`
	Next *c07Node                 `gq:"next"`
	List []*c07Node               `gq:"list"`
	Grid [][]*c07Node             `gq:"grid"`
	If   c07If                    `gq:"if"`
	Fn   func() *c07Node          `gq:"fn"`
	PFn  func() (*c07Node, error) `gq:"pfn"`
}
type c07If interface {
	ResolveV() int
	ResolveNext() *c07Impl
	ResolveIf() c07If
}
type c07Impl struct {
	Self *c07Impl `gq:"self"`
}

func (c c07Impl) ResolveV() int         { return 7 }
func (c c07Impl) ResolveNext() *c07Impl { return c.Self }
func (c c07Impl) ResolveIf() c07If      { return c }

type c07Root struct {
	V    int      `gq:"v"`
	Node *c07Node `gq:"node"`
}

var _ = yarql.Implements((*c07If)(nil), c07Impl{})

func TestVerifC07(t *testing.T) {
	h := newVH(t, "chains of up to 300 objects through pointers, lists, lists of lists, functions, interfaces, inline fragments and fragments over data that refers to itself, all maximum depths 0..255 (seeded), compared with the expected response; fragments that refer to themselves or each other")
	defer h.done()
	n := &c07Node{V: 1}
	n.Next = n
	n.List = []*c07Node{n}
	n.Grid = [][]*c07Node{{n}}
	n.Fn = func() *c07Node { return n }
	n.PFn = func() (*c07Node, error) { return n, nil }
	s := mustSchema(h, "self-referring", c07Root{V: 1, Node: n}, vM{}, nil)
	if s == nil {
		return
	}
	for i := 0; i < h.n(1500, 20000) && h.more(); i++ {
		max := h.rng.Intn(256)
		switch h.rng.Intn(4) {
		case 0:
			max = h.rng.Intn(6)
		case 1:
			max = 255 - h.rng.Intn(3)
		}
		depth := max - 3 + h.rng.Intn(6)
		if h.chance(30) {
			depth = h.rng.Intn(300)
		}
		if depth < 0 {
			depth = 0
		}
		frags := ""
		nf := 0
		// level writes what is selected in the object at a depth and what it has to answer
		var level func(at int) (string, string)
		level = func(at int) (string, string) {
			q, a := "{", "{"
			typ := "c07Root"
			v := "1"
			if at > 0 {
				typ = "c07Node"
			}
			if h.chance(20) || at == depth {
				q, a = q+"v ", a+`"v":`+v
			}
			if at < depth {
				if a != "{" {
					a += ","
				}
				fields := []string{"next", "list", "grid", "fn", "pfn"}
				f := fields[h.rng.Intn(len(fields))]
				if at == 0 {
					f = "node"
				}
				sub, ans := "", "null"
				if at+1 >= max {
					sub = "{v}"
				} else {
					sub, ans = level(at + 1)
				}
				switch f {
				case "list":
					ans = "[" + ans + "]"
				case "grid":
					ans = "[[" + ans + "]]"
				}
				a += `"` + f + `":` + ans
				f += sub
				switch {
				case h.chance(8):
					f = "... on " + typ + "{" + f + "}"
				case h.chance(5) && nf < 200:
					nf++
					frags += fmt.Sprintf(" fragment f%d on %s{%s}", nf, typ, f)
					f = fmt.Sprintf("...f%d", nf)
				}
				q += f
			}
			return q + "}", a + "}"
		}
		q, want := level(0)
		q += frags
		s.MaxDepth = uint8(max)
		h.run(fmt.Sprintf("MaxDepth %d: %s", max, q), func() {
			got, errs := data(s, q, "")
			h.eq("response", fmt.Sprintf("MaxDepth %d: %s", max, q), got, want)
			over := depth > 0 && depth >= max
			if over != (len(errs) > 0) || over && !strings.Contains(errs[0], "dept") {
				h.fail("errors", fmt.Sprintf("MaxDepth %d: %s", max, q), errs, fmt.Sprintf("an error about the depth: %v", over))
			}
		})
	}
	// interfaces
	n.If = c07Impl{Self: &c07Impl{}}
	for _, max := range []int{0, 1, 2, 3, 9, 254, 255} {
		for _, depth := range []int{1, 2, 5, 260} {
			s.MaxDepth = uint8(max)
			q := "{node{if" + strings.Repeat("{if", depth) + "{v}" + strings.Repeat("}", depth+2)
			h.run(q, func() {
				got, _ := data(s, q, "")
				if p := jsonProblem(got); p != "" {
					h.fail("interfaces", q, got, p)
				}
			})
		}
	}
	// fragments that never end
	for i := 0; i < h.n(300, 3000) && h.more(); i++ {
		k := 1 + h.rng.Intn(6)
		q := "{node{...f0}}"
		for j := 0; j < k; j++ {
			body := fmt.Sprintf("...f%d", (j+1)%k)
			switch h.rng.Intn(4) {
			case 0:
				body = h.pick("next", "list", "fn", "grid") + "{" + body + "}"
			case 1:
				body = "... on c07Node{" + body + "}"
			case 2:
				body = "v " + body
			}
			q += fmt.Sprintf(" fragment f%d on c07Node{%s}", j, body)
		}
		s.MaxDepth = uint8(h.rng.Intn(256))
		h.run(q, func() {
			got, errs := execute(s, q, yarql.ResolveOptions{})
			if p := jsonProblem(got); p != "" && !strings.Contains(p, "dup") {
				h.fail("endless fragments", q, got, p)
			}
			if len(errs) == 0 {
				h.fail("endless fragments", q, "no error", "an error")
			}
		})
	}
	// a chain of fragments that does end is executed
	q := "{node{...f0}}"
	for j := 0; j < 400; j++ {
		q += fmt.Sprintf(" fragment f%d on c07Node{...f%d}", j, j+1)
	}
	q += " fragment f400 on c07Node{v}"
	s.MaxDepth = 255
	h.run("400 nested fragments", func() {
		got, errs := data(s, q, "")
		h.eq("400 nested fragments", q, got+fmt.Sprint(errs), `{"node":{"v":1}}[]`)
	})
}
