package yarql_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

type vE18 string
type vT18 struct{}

type vQ18 struct{}

func (vQ18) Resolve() string       { return "" }
func (vQ18) ResolveA() string      { return "" }
func (vQ18) ResolveFooBar() string { return "" }
func (vQ18) ResolveURLOf() string  { return "" }
func (vQ18) ResolveX1() string     { return "" }
func (vQ18) Resolver() string      { return "" }
func (vQ18) Other() string         { return "" }

func c18Letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func c18Valid(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !c18Letter(c) && (i == 0 || !(c >= '0' && c <= '9' || c == '_')) {
			return false
		}
	}
	return true
}
func c18Derive(s string) string {
	if len(s) > 1 && !(s[1] >= 'a' && s[1] <= 'z') {
		return s
	}
	return strings.ToLower(s[:1]) + s[1:]
}

func TestVerifC18(t *testing.T) {
	h := newVH(t, "enum keys, type renames, field names, method names and gq tags: every name of up to two bytes, seeded random longer names over a hostile alphabet")
	name := func() string {
		b := []byte{}
		for i := h.rng.Intn(6); i >= 0; i-- {
			const al = "aAzZ019_-.@[`{/: \x00\xffmM"
			b = append(b, al[h.rng.Intn(len(al))])
		}
		if h.chance(60) {
			for i := range b {
				b[i] = nameRest[h.rng.Intn(len(nameRest))]
			}
		}
		return string(b)
	}
	check := func(n string) {
		h.run("enum key "+fmt.Sprintf("%q", n), func() {
			s := yarql.NewSchema()
			added, err := s.RegisterEnum(map[string]vE18{n: "x"})
			h.eq("enum key accepted", fmt.Sprintf("%q", n), added && err == nil, c18Valid(n))
		})
		h.run("rename "+fmt.Sprintf("%q", n), func() {
			want := c18Valid(strings.TrimSpace(n))
			ok, r := true, ""
			func() {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
				r = yarql.TypeRename(vT18{}, n)
			}()
			h.eq("type name accepted", fmt.Sprintf("%q", n), ok, want)
			if ok {
				h.eq("type name", fmt.Sprintf("%q", n), r, strings.TrimSpace(n))
			}
		})
	}
	tag := func(goName, tag string, kind int) {
		in := fmt.Sprintf("field %s with tag gq:%q", goName, tag)
		h.run(in, func() {
			q := structOf(reflect.StructField{Name: goName, Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf("gq:%q", tag))})
			s := yarql.NewSchema()
			err := s.Parse(q, vM{}, nil)
			parts := strings.Split(tag, ",")
			p0 := strings.TrimSpace(parts[0])
			if p0 == "-" {
				if err != nil {
					h.fail("ignored field is rejected", in, err, "no error")
					return
				}
				h.eq("ignored field", in, fieldNames(h, s, in), []string{})
				return
			}
			bad := p0 != "" && !c18Valid(p0)
			for _, p := range parts[1:] {
				if strings.ToLower(strings.TrimSpace(p)) != "id" {
					bad = true
				}
			}
			h.eq("tag accepted", in, err == nil, !bad)
			if err != nil {
				return
			}
			want := p0
			if want == "" {
				want = c18Derive(goName)
			}
			h.eq("field name", in, fieldNames(h, s, in), []string{want})
			res, _ := data(s, `{__schema{queryType{fields{type{ofType{name}}}}}}`, "")
			h.eq("ID type", in, strings.Contains(res, `"ID"`), len(parts) > 1)
		})
	}
	for a := 0; a < 256; a++ {
		check(string([]byte{byte(a)}))
		check("a" + string([]byte{byte(a)}))
		check("ab" + string([]byte{byte(a)}))
	}
	check("")
	for i := 0; i < h.n(3000, 60000) && h.more(); i++ {
		check(name())
	}
	h.run("method names", func() {
		s := mustSchema(h, "vQ18", vQ18{}, vM{}, nil)
		if s != nil {
			h.eq("method field names", "vQ18", fieldNames(h, s, "vQ18"), []string{"URLOf", "X1", "a", "fooBar"})
		}
	})
	goName := func() string {
		n := string(nameFirst[26+h.rng.Intn(26)])
		for i := h.rng.Intn(5); i > 0; i-- {
			n += string(nameRest[h.rng.Intn(len(nameRest))])
		}
		return n
	}
	for a := 'A'; a <= 'Z'; a++ {
		tag(string(a), "", 0)
		for _, b := range nameRest {
			tag(string(a)+string(b), "", 0)
		}
	}
	for i := 0; i < h.n(1500, 20000) && h.more(); i++ {
		tg := ""
		if h.chance(70) {
			tg = h.pick("", " ") + h.pick("", "-", "-", "a", "fooBar", "Foo_1", "_x", "1a", "a-b", "é", name()) + h.pick("", " ")
			if strings.ContainsAny(tg, "\x00\xff") {
				tg = "x"
			}
			for h.chance(40) {
				tg += "," + h.pick("id", "ID", " Id ", "", "i d", "idx", "-", "name")
			}
		}
		tag(goName(), tg, 0)
	}
	h.done()
}
