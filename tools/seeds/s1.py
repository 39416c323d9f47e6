BC='''
package bytecode

import "testing"

func TestDemo(t *testing.T) {
	for _, q := range []string{%s} {
		ctx := NewParserCtx()
		ctx.Query = append(ctx.Query[:0], q...)
		ctx.ParseQueryToBytecode(nil)
	}
}
'''
C18='''
package yarql

import "testing"

func TestDemo(t *testing.T) {
%s
}
'''
SEEDS=[
dict(id="c01-table-high-byte",property="C01",pkg="bytecode",edits=[("bytecode/bytecode.go","""func isPunctuator(c byte) bool {
	return c == '!' || c == '$' || c == '(' || c == ')' || c == '.' || c == ':' || c == '=' || c == '@' || c == '[' || c == ']' || c == '{' || c == '|' || c == '}'
}""","""var punctuators = [128]bool{'!': true, '$': true, '(': true, ')': true, '.': true, ':': true, '=': true, '@': true, '[': true, ']': true, '{': true, '|': true, '}': true}

func isPunctuator(c byte) bool {
	return punctuators[c]
}""")],
 test=BC%'"{a(a:12\u00e9)}"',needs="a byte above 127 directly behind a number literal",breaks="the lookup table is indexed out of range: panic"),
dict(id="c18-second-char",property="C18",pkg=".",edits=[("parse.go","if input[1] == bytes.ToUpper([]byte{input[1]})[0] {","if input[1] >= 'A' && input[1] <= 'Z' {")],
 test=C18%'''	for in, want := range map[string]string{"X1": "X1", "A_b": "A_b", "Foo": "foo", "FOo": "FOo"} {
		if got := formatGoNameToQL(in); got != want {
			t.Fatal(in, got, want)
		}
	}''',needs="a Go name whose second character is a digit or underscore",breaks="the first letter is lower-cased although the second character is not a lower-case letter"),
dict(id="c18-tag-error-lost",property="C18",pkg=".",edits=[("parse.go","""			isID = true
		default:""","""			isID, err = true, nil
		default:""")],
 test='''
package yarql

import (
	"reflect"
	"testing"
)

func TestDemo(t *testing.T) {
	f, _ := reflect.TypeOf(struct {
		A string `gq:"not valid,id"`
	}{}).FieldByName("A")
	_, _, _, err := parseFieldTagGQ(&f)
	if err == nil {
		t.Fatal("invalid name accepted")
	}
}
''',needs="a gq tag with both an invalid name and the id part",breaks="the error of the invalid name is dropped"),
]
