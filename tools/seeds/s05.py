H='''
package yarql

import (
	"encoding/json"
	"testing"
)

type demoColor string

type demoIn struct {
	A int
	B int
}

type demoQ struct {
	A     int
	Color demoColor
	List  []demoIn
}

func (demoQ) ResolveFail() (int, error) { return 0, demoErr{} }
func (demoQ) ResolveOther() (int, error) { return 0, demoErr{} }

type demoErr struct{}

func (demoErr) Error() string { return "x" }

type demoM struct{}

func TestDemo(t *testing.T) {
	s := NewSchema()
	if _, err := s.RegisterEnum(map[string]demoColor{"RED": "red"}); err != nil {
		t.Fatal(err)
	}
	if err := s.Parse(demoQ{Color: "blue", List: []demoIn{{1, 2}, {3, 4}}}, demoM{}, nil); err != nil {
		t.Fatal(err)
	}
	for _, q := range []string{%s} {
		s.Resolve([]byte(q), ResolveOptions{})
		if !json.Valid(s.Result) {
			t.Fatal(q, string(s.Result))
		}
	}
}
'''
SEEDS=[
dict(id="c05-fragment-first",property="C05",pkg=".",edits=[("resolver.go","		criticalErr := ctx.resolveSelectionSet(typeObj, dept, firstField)\n		ctx.charNr++","		isFirstField := *firstField\n		criticalErr := ctx.resolveSelectionSet(typeObj, dept, &isFirstField)\n		ctx.charNr++")],
 test=H%'"{...on demoQ{a} b:a}"',needs="an inline fragment in front of a field",breaks="the separator between the fields is missing"),
dict(id="c05-unknown-string-enum",property="C05",pkg=".",edits=[("resolver.go","				if entry.value.String() == underlayingValue {\n					ctx.writeQuoted(entry.keyBytes)\n					return false\n				}\n			}\n","				if entry.value.String() == underlayingValue {\n					ctx.writeQuoted(entry.keyBytes)\n					break\n				}\n			}\n			return false\n")],
 test=H%'"{color}"',needs="a field of a string enum type holding a value outside the enum",breaks="the key is followed by no value"),
dict(id="c05-stop-list-at-error",property="C05",pkg=".",edits=[("resolver.go","			ctx.resolveFieldDataValue(typeObj, dept, hasSubSelection)\n			if i != goValueLen-1 {\n				ctx.writeByte(',')\n			}\n\n			ctx.path = ctx.path[:prefPathLen]\n","			criticalErr := ctx.resolveFieldDataValue(typeObj, dept, hasSubSelection)\n			if i != goValueLen-1 {\n				ctx.writeByte(',')\n			}\n\n			ctx.path = ctx.path[:prefPathLen]\n			if criticalErr {\n				break\n			}\n")],
 test=H%'"{list{nope}}"',needs="a list of objects whose first element fails and that has more elements",breaks="the list ends in a separator"),
dict(id="c05-second-error",property="C05",pkg=".",edits=[("resolver.go","					if i > 0 {\n						ctx.writeByte(',')","					if i > 1 {\n						ctx.writeByte(',')")],
 test=H%'"{fail other}"',needs="a request with at least two errors",breaks="the first two errors are not separated"),
]
