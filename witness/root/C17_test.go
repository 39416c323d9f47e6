package yarql_test

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

func TestVerifC17(t *testing.T) {
	h := newVH(t, "the locations written to the response for syntax errors at up to 300 lines and columns")
	s := mustSchema(h, "", struct{ A int }{}, vM{}, nil)
	for i := 0; i < h.n(2000, 20000) && h.more() && s != nil; i++ {
		q := "{"
		for j := h.rng.Intn(12); j > 0; j-- {
			q += h.pick("\n", "\r\n", " a\r", " a "+strings.Repeat("\n", h.rng.Intn(30)), strings.Repeat(" ", h.rng.Intn(30)), "\n\r")
		}
		n := strings.Replace(strings.Replace(q, "\r\n", "\n", -1), "\r", "\n", -1)
		line, col := 1+strings.Count(n, "\n"), len(n)-1-strings.LastIndex(n, "\n")
		q += "^"
		h.run(fmt.Sprintf("%q", q), func() {
			errs := s.Resolve([]byte(q), yarql.ResolveOptions{})
			var out struct {
				Errors []struct {
					Locations []struct{ Line, Column int }
				}
			}
			if err := json.Unmarshal(s.Result, &out); err != nil {
				h.fail("response is not JSON", fmt.Sprintf("%q", q), string(s.Result), err)
				return
			}
			if len(errs) != 1 || len(out.Errors) != 1 || len(out.Errors[0].Locations) != 1 {
				h.fail("one error with one location expected", fmt.Sprintf("%q", q), string(s.Result), "")
				return
			}
			l := out.Errors[0].Locations[0]
			if l.Line != line || l.Column != col {
				h.fail("wrong location in the response", fmt.Sprintf("%q", q), string(s.Result), fmt.Sprintf("line %d column %d", line, col))
			}
		})
	}
	h.done()
}
