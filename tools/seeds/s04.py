HH='''
package helpers

import (
	"encoding/json"
	"testing"
)

func TestDemo(t *testing.T) {
	_ = json.Valid
%s
}
'''
RR='''
package yarql

import (
	"reflect"
	"testing"
)

func TestDemo(t *testing.T) {
	s := NewSchema()
	ctx := newCtx(s)
	s.Result = s.Result[:0]
%s
	_ = reflect.Uint64
}
'''
SEEDS=[
dict(id="c04-unit-separator",property="C04",pkg="helpers",edits=[("helpers/encodeString.go","if b >= ' ' && b <= '}'","if b >= '\\x1f' && b <= '}'")],
 test=HH%'''	out := []byte{}
	StringToJSON("a\\x1fb", &out)
	if !json.Valid(out) {
		t.Fatal(string(out))
	}''',needs="a string holding the control character 0x1f",breaks="the unit separator is written raw, which JSON forbids"),
dict(id="c04-uint-sign",property="C04",pkg=".",edits=[("resolver.go","ctx.schema.Result = strconv.AppendUint(ctx.schema.Result, in.Uint(), 10)","ctx.schema.Result = strconv.AppendInt(ctx.schema.Result, int64(in.Uint()), 10)")],
 test=RR%'''	ctx.valueToJSON(reflect.ValueOf(uint64(1)<<63), reflect.Uint64)
	if string(s.Result) != "9223372036854775808" {
		t.Fatal(string(s.Result))
	}''',needs="an unsigned 64-bit value of 2^63 or more",breaks="large unsigned integers are written as negative numbers"),
]
